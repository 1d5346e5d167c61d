-------------------------------- MODULE Labels --------------------------------
(* The text of the messages: one line <<name, text of the value, number>> per field. A value with decimals has the     *)
(* text "#" and its number in thousandths, so that it is compared as a number; a whole value is a text. The meanings *)
(* of the codes are those of the tables of the standards (the same as in the other modules).                        *)
EXTENDS Adsb, CommB, Frame, TLC

L(label, text) == <<label, text, 0>>
I(label, n) == <<label, ToString(n), 0>>
F(label, b) == <<label, IF b = 1 THEN "true" ELSE "false", 0>>
M(label, n) == IF n % 1000 = 0 THEN <<label, ToString(n \div 1000), 0>> ELSE <<label, "#", n>>
E(label, n, table) == <<label, table[n], 0>>

HexDigit(n) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>[n+1]
HexOctet(n) == HexDigit(n \div 16) \o HexDigit(n % 16)

\* The texts of a sequence, separated
RECURSIVE Join(_, _)
Join(s, separator) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o separator \o Join(Tail(s), separator)

Hex(s) == Join([i \in 1..Len(s) |-> HexOctet(s[i])], " ")
Slice(s) == "[" \o Join([i \in 1..Len(s) |-> ToString(s[i])], " ") \o "]"
Address(n) == HexOctet(n \div 65536) \o " " \o HexOctet((n \div 256) % 256) \o " " \o HexOctet(n % 256)
Statuses(n) == Join([i \in 1..16 |-> ToString((n \div Pow2[16-i]) % 2)], ", ")

\* A text without the spaces around it
RECURSIVE Trimmed(_)
Trimmed(t) == IF t = "" THEN t
              ELSE IF SubSeq(t, 1, 1) = " " THEN Trimmed(SubSeq(t, 2, Len(t)))
              ELSE IF SubSeq(t, Len(t), Len(t)) = " " THEN Trimmed(SubSeq(t, 1, Len(t)-1))
              ELSE t

\* The speed and the track are computed when both of the components are regular. Their values are compared apart.
Computed(label, unit, ew, ns) ==
  IF ew # 1 THEN L(label, "not computable: velocity EW is not regular")
  ELSE IF ns # 1 THEN L(label, "not computable: velocity NS is not regular")
  ELSE L(label, unit)

MovementText(n) ==
  CASE n = 0 -> "0 - no information available"
    [] n = 1 -> "1 - aircraft stopped (ground speed < 0.2315 km/h (0.125 kt))"
    [] n \in 2..123 -> ToString(n) \o " - valid"
    [] n = 124 -> "124 - ground speed >= 324.1 km/h (175 kt)"
    [] n = 125 -> "125 - reserved for A/C Decelerating"
    [] n = 126 -> "126 - reserved for A/C Accelerating"
    [] n = 127 -> "127 - reserved for Backing Up"

Utility(iis, ids) ==
  "InterrogatorIdentifier: " \o ToString(iis) \o ", Reservation: " \o
  <<"0 - No Information", "1 - Designator Comm-B", "2 - Designator Comm-C", "3 - Designator Comm-D">>[ids+1]

IdentityText(id) ==
  CASE id = "7700" -> "7700 [Emergency]"
    [] id = "7600" -> "7600 [Radiocommunication Failure]"
    [] id = "7500" -> "7500 [Unlawful Interference]"
    [] id = "2000" -> "2000 [Instruction Not Received]"
    [] OTHER -> id

AltitudeSource == [n \in 0..1 |-> <<"0 - Barometric", "1 - GNSS">>[n+1]]

Category(tc) == [n \in 0..7 |->
  (CASE tc = 1 -> [i \in 1..8 |-> ToString(i-1) \o " - Reserved"]
    [] tc = 2 -> <<"0 - No aircraft category information", "1 - Surface vehicle - emergency vehicle", "2 - Surface vehicle - service vehicle",
                   "3 - Fixed ground or tethered obstruction", "4 - Reserved", "5 - Reserved", "6 - Reserved", "7 - Reserved">>
    [] tc = 3 -> <<"0 - No aircraft category information", "1 - Glider / sailplane", "2 - Lighter-than-air", "3 - Parachutist / skydiver",
                   "4 - Ultralight / hang-glider / paraglider", "5 - Reserved", "6 - Unmanned aerial vehicle", "7 - Space / transatmospheric vehicle">>
    [] OTHER -> <<"0 - No aircraft category information", "1 - Light (< 15_500 lbs or 7_031 kg)",
                  "2 - Medium 1 (>15_500 to 75_000 lbs, or 7_031 to 34_019 kg)", "3 - Medium 2 (>75_000 to 300_000 lbs, or 34_019 to 136_078 kg)",
                  "4 - High vortex aircraft", "5 - Heavy (> 300_000 lbs or 136_078 kg)",
                  "6 - High performance (> 5g acceleration) and high speed (> 400 kt)", "7 - Rotorcraft">>)[n+1]]

\* ---------------------------------------------------------------------------------------------------------------
\* The resolution advisories. r: the content, from the kind of the active advisory on.

YesNo(n, no, yes) == IF n = 1 THEN yes ELSE no

RangeText(range) ==
  CASE range = 0 -> "0 - No range estimate available"
    [] range = 1 -> "1 - Less than 0.05"
    [] range = 127 -> "Greater than 12.55"
    [] OTHER -> ToString(range) \o " - " \o ToString((range-1) \div 10) \o (IF (range-1) % 10 = 0 THEN "" ELSE "." \o ToString((range-1) % 10)) \o " +/- 0.05 NM"
BearingText(bearing) ==
  CASE bearing = 0 -> "0 - No bearing estimate available"
    [] bearing > 60 -> ToString(bearing) \o " - Not assigned"
    [] OTHER -> ToString(bearing) \o " - between " \o ToString(6*(bearing-1)) \o " and " \o ToString(6*bearing)

\* The lines of an advisory; missing: the parts of the identity of the threat that are not there (in the structures that are
\* not made by the readers)
AdvisoryLines(r, missing) ==
  LET k == IF r[1] = "ActiveRANoVerticalRAGenerated" THEN 2 ELSE 8    \* what comes before the complement
      tti == r[k+7]
  IN <<L("Active Resolution Advisory", "")>>
     \o (CASE r[1] = "ActiveRAOneThreatOrSameSeparation" ->
               <<L("Type", "One threat or multiple threats with separation in same direction"),
                 L("Preventive/Corrective", YesNo(r[3], "Preventive", "Corrective")),
                 L("Sense generated", YesNo(r[4], "Upward", "Downward")),
                 F("Is increased rate", r[5]), F("Is sense reversal", r[6]), F("Is altitude crossing", r[7]),
                 L("Vertical Speed Limit/Positive", YesNo(r[8], "Vertical Speed Limit", "Positive"))>>
          [] r[1] = "ActiveRAMultipleThreatsDifferentSeparation" ->
               <<L("Type", "Multiple threats with separation in different directions"),
                 F("Require a correction in the upward sense", r[3]), F("Requires a positive climb", r[4]),
                 F("Requires a correction in the downward sense", r[5]), F("Requires a positive descend", r[6]),
                 F("Requires a crossing", r[7]), F("Is a sense reversal", r[8])>>
          [] OTHER -> <<L("Type", "no Resolution Advisory has been generated")>>)
     \o <<L("Active Resolution Advisory Complement", ""),
          F("Do not pass below", r[k+1]), F("Do not pass above", r[k+2]), F("Do not turn left", r[k+3]), F("Do not turn right", r[k+4]),
          L("Active Resolution Advisory Terminated Indicator",
            YesNo(r[k+5], "ACAS is currently generating the RA", "the RA indicated has been terminated")),
          L("Multiple Threat Encounter", YesNo(r[k+6], "One or no threat is currently being processed by the ACAS",
                                                       "Two or more threats are currently being processed by the ACAS")),
          L("Threat Type Indicator", <<"0 - No identity data in TID", "1 - TID contains a Mode S transponder address",
                                       "2 - TID contains altitude, range and bearing data", "3 - Not assigned">>[tti+1])>>
     \o (CASE tti = 1 -> <<L("Threat Mode-S Identity", IF "address" \in missing THEN "[Error: Missing Mod-S Address]" ELSE Address(r[k+8]))>>
          [] tti = 2 ->
               LET range == r[k+11]
                   bearing == r[k+13]
               IN <<L("Threat Altitude", IF "altitude" \in missing THEN "[Error: Missing Threat Altitude]" ELSE ToString(r[k+10]) \o " ft / Status: " \o YesNo(r[k+9], "Not Available or Invalid", "Valid")),
                    L("Threat Range", IF "range" \in missing THEN "[Error: Missing Threat Range]" ELSE RangeText(range)),
                    L("Threat Bearing", IF "bearing" \in missing THEN "[Error: Missing Threat Bearing]" ELSE BearingText(bearing))>>
          [] OTHER -> <<>>)
RaLines(r) == AdvisoryLines(r, {})

\* ---------------------------------------------------------------------------------------------------------------
\* The codes

SurveillanceStatus == [n \in 0..3 |-> <<
  "0 - no status information",
  "1 - permanent alert condition",
  "2 - temporary alert condition",
  "3 - SPI condition">>[n+1]]

SingleAntennaFlag == [n \in 0..1 |-> <<
  "0 - dual transmit antenna system",
  "1 - single transmit antenna system">>[n+1]]

AltitudeReportMethod == [n \in 0..1 |-> <<
  "0 - 100 Foot Increments",
  "1 - 25 Foot Increments">>[n+1]]

Time == [n \in 0..1 |-> <<
  "0 - not synchronized to UTC",
  "1 - synchronized to UTC">>[n+1]]

CompactPositionReportingFormat == [n \in 0..1 |-> <<
  "0 - even format coding",
  "1 - odd format coding">>[n+1]]

HorizontalProtectionLimit == 9 :> "(Baro) HorizontalProtectionLimit < 7.5 m" @@
  10 :> "(Baro) 7.5 m <= HorizontalProtectionLimit < 25 m" @@
  11 :> "(Baro) 25 m <= HorizontalProtectionLimit < 185.2 m (0.1NM)" @@
  12 :> "(Baro) 185.2 m <= HorizontalProtectionLimit < 370.4 m (0.1 NM <= HorizontalProtectionLimit < 0.2 NM)" @@
  13 :> "(Baro) 370.4 m <= HorizontalProtectionLimit < 926 m (0.2 NM <= HorizontalProtectionLimit < 0.5 NM)" @@
  14 :> "(Baro) 926 m <= HorizontalProtectionLimit < 1 852 m (0.5 NM <= HorizontalProtectionLimit < 1.0 NM)" @@
  15 :> "(Baro) 1 852 m <= HorizontalProtectionLimit < 3 704 m (1.0 NM <= HorizontalProtectionLimit < 2.0 NM)" @@
  16 :> "(Baro) 3.704 km <= HorizontalProtectionLimit < 18.52 km (2.0 NM <= HorizontalProtectionLimit < 10 NM)" @@
  17 :> "(Baro) 18.52 km <= HorizontalProtectionLimit < 37.04 km (10 NM <= HorizontalProtectionLimit < 20 NM)" @@
  18 :> "(Baro) HorizontalProtectionLimit >= 37.04 km (HorizontalProtectionLimit >= 20 NM)" @@
  20 :> "(GNSS) HorizontalProtectionLimit < 7.5 m" @@
  21 :> "(GNSS) HorizontalProtectionLimit < 25 m" @@
  22 :> "(GNSS) 25 m <= HorizontalProtectionLimit"

ContainmentRadius == 9 :> "(Baro) 0 mu < 3m" @@
  10 :> "(Baro) 3 m <= mu < 10 m" @@
  11 :> "(Baro) 10 m <= mu < 92.6 m (0.05 NM)" @@
  12 :> "(Baro) 92.6 m <= mu < 185.2 m (0.05 NM <= mu < 0.1 NM)" @@
  13 :> "(Baro) 185.2 m <= mu < 463 m (0.1 NM <= mu < 0.25 NM)" @@
  14 :> "(Baro) 463 m <= mu < 926 m (0.25 NM <= mu < 0.5 NM)" @@
  15 :> "(Baro) 926 m <= mu < 1852 m (0.5 NM <= mu < 1.0 NM)" @@
  16 :> "(Baro) 1.852 km <= mu < 9.26 km (1.0 NM <= mu < 5.0 NM)" @@
  17 :> "(Baro) 9.26 km <= mu < 18.52 km (5.0 NM <= mu < 10.0 NM)" @@
  18 :> "(Baro) 18.52 km <= mu (10.0 NM <= mu)" @@
  20 :> "(GNSS) mu < 3 m and v < 4 m" @@
  21 :> "(GNSS) mu < 10 m and v < 15 m" @@
  22 :> "(GNSS) mu > 10 m or v >= 15 m"

HorizontalContainmentRadius == 0 :> "(GNSS) Rc < 7.5 m and VPL < 11 m" @@
  1 :> "(GNSS) Rc < 25 m and VPL < 37.5 m" @@
  2 :> "(GNSS) Rc >= 25 m or VPL >= 37.5 m or unknown" @@
  9 :> "(Baro) Rc < 7.5 m and VPL < 11 m" @@
  10 :> "(Baro) Rc < 25 m and VPL < 37.5 m" @@
  11 :> "(Baro) Rc < 0.1 NM (185.2 m)" @@
  12 :> "(Baro) Rc < 0.2 NM (370.4 m)" @@
  13 :> "(Baro) Rc < 0.5 NM (926 m)" @@
  14 :> "(Baro) Rc < 1.0 NM (1852 m)" @@
  15 :> "(Baro) Rc < 2 NM (3.704 km)" @@
  16 :> "(Baro) Rc < 8 NM (14.816 km)" @@
  17 :> "(Baro) Rc < 20 NM (37.04 km)" @@
  18 :> "(Baro) Rc >= 20 NM (37.04 km) or unknown" @@
  111 :> "(Baro) Rc < 75 m and VPL < 112 m" @@
  113 :> "(Baro) Rc < 0.6 NM (1111.2 m)" @@
  116 :> "(Baro) Rc < 4 NM (7.408 km)"

HorizontalContainmentRadius2 == 9 :> "(Baro) Rc < 7.5 m" @@
  10 :> "(Baro) Rc < 25 m" @@
  11 :> "(Baro) Rc < 0.1 NM (185.2 m)" @@
  12 :> "(Baro) Rc < 0.2 NM (370.4 m)" @@
  13 :> "(Baro) Rc < 0.5 NM (926 m)" @@
  14 :> "(Baro) Rc < 1.0 NM (1852 m)" @@
  15 :> "(Baro) Rc < 2 NM (3.704 km)" @@
  16 :> "(Baro) Rc < 8 NM (14.816 km)" @@
  17 :> "(Baro) Rc < 20 NM (37.04 km)" @@
  18 :> "(Baro) Rc >= 20 NM (37.04 km) or unknown" @@
  20 :> "(GNSS) Rc < 7.5 m" @@
  21 :> "(GNSS) Rc < 25 m" @@
  22 :> "(GNSS) Rc >= 25 m or unknown" @@
  111 :> "(Baro) Rc < 75 m" @@
  113 :> "(Baro) Rc < 0.6 NM (1111.2 m)" @@
  116 :> "(Baro) Rc < 4 NM (7.408 km)" @@
  213 :> "(Baro) Rc < 0.3 NM (555.6 m)"

HorizontalProtectionLimit2 == 5 :> "HPL < 7.5 m" @@
  6 :> "HPL < 25 m" @@
  7 :> "HPL < 185.2 m (0.1 NM)" @@
  8 :> "185.2 m (0.1 NM) <= HPL"

ContainmentRadius2 == 5 :> "mu < 3 m" @@
  6 :> "3 m <= mu < 10 m" @@
  7 :> "10 m <= mu < 92.6 m (0.05 NM)" @@
  8 :> "92.6 m (0.05 NM) <= mu"

HorizontalContainmentLimit == [n \in 0..4 |-> <<
  "Rc < 7.5 m",
  "Rc < 25 m",
  "Rc < 75 m",
  "Rc < 0.1 NM (185.2 m)",
  "Rc >= 0.1 NM (185.2 m) or unknown">>[n+1]]

HorizontalContainmentLimit2 == [n \in 0..7 |-> <<
  "Rc < 7.5 m",
  "Rc < 25 m",
  "Rc < 75 m",
  "Rc < 0.1 NM (185.2 m)",
  "Rc < 0.2 NM (370.4 m)",
  "Rc < 0.3 NM (555.6 m)",
  "Rc < 0.6 NM (1111.2 m)",
  "Rc >= 0.6 NM (1111.2 m) or unknown">>[n+1]]

IntentChange == [n \in 0..1 |-> <<
  "0 - no change in intent",
  "1 - intent change">>[n+1]]

IFRCapability == [n \in 0..1 |-> <<
  "0 - transmitting aircraft has no capability for ADS-B based conflict detection or higher level (class A1 or above) applications",
  "1 - transmitting aircraft has capability for ADS-B-based conflict detection and higher level (class A1 or above) applications">>[n+1]]

NavigationUncertaintyCategory == [n \in 0..7 |-> <<
  "0 - Unknown",
  "1 - Horizontal Velocity Error (95%): < 10 m/s / Vertical Velocity Error (95%): < 15.2 m/s (50 fps)",
  "2 - Horizontal Velocity Error (95%): < 3 m/s / Vertical Velocity Error (95%): < 4.6 m/s (15 fps)",
  "3 - Horizontal Velocity Error (95%): < 1 m/s / Vertical Velocity Error (95%): < 1.5 m/s (5 fps)",
  "4 - Horizontal Velocity Error (95%): < 0.3 m/s / Vertical Velocity Error (95%): < 0.46 m/s (1.5 fps)",
  "5 - Unknown code",
  "6 - Unknown code",
  "7 - Unknown code">>[n+1]]

MagneticHeadingStatus == [n \in 0..1 |-> <<
  "0 - Magnetic heading not available",
  "1 - Magnetic heading available">>[n+1]]

AirSpeedStatus == [n \in 0..2 |-> <<
  "No information",
  "Regular value",
  "Maximum">>[n+1]]

VerticalRateSource == [n \in 0..1 |-> <<
  "0 - GNSS",
  "1 - Baro">>[n+1]]

DirectionEW == [n \in 0..1 |-> <<
  "0 - East",
  "1 - West">>[n+1]]

DirectionNS == [n \in 0..1 |-> <<
  "0 - north",
  "1 - south">>[n+1]]

EnRouteOperationalCapabilities == [n \in 0..15 |-> <<
  "0 - reserved",
  "1 - reserved",
  "2 - reserved",
  "3 - reserved",
  "4 - reserved",
  "5 - reserved",
  "6 - reserved",
  "7 - reserved",
  "8 - reserved",
  "9 - reserved",
  "10 - reserved",
  "11 - reserved",
  "12 - reserved",
  "13 - reserved",
  "14 - reserved",
  "15 - reserved">>[n+1]]

NotACASStatus == [n \in 0..1 |-> <<
  "0 - ACAS operational or unknown",
  "1 - ACAS not installed or not operational">>[n+1]]

CockpitDisplayOfTrafficInformationStat == [n \in 0..1 |-> <<
  "0 - Traffic display not operational",
  "1 - Traffic display operational">>[n+1]]

AirReferencedVelocityReportCapability == [n \in 0..1 |-> <<
  "0 - No capability for sending messages to support Air-Referenced Velocity Reports",
  "1 - Capability of sending messages to support Air-Referenced Velocity Reports">>[n+1]]

TargetStateReportCapability == [n \in 0..1 |-> <<
  "0 - No capability for sending messages to support Target State Reports",
  "1 - Capability of sending messages to support Target State Reports">>[n+1]]

TargetChangeReportCapability == [n \in 0..3 |-> <<
  "0 - No capability for sending messages to support Trajectory Change Reports",
  "1 - Capability of sending messages to support TC+0 Report only",
  "2 - Capability of sending information for multiple TC Reports",
  "3 - Reserved">>[n+1]]

ACASResolutionAdvisoryActive == [n \in 0..1 |-> <<
  "0 - ACAS II or ACAS RA not active",
  "1 - ACAS RA is active">>[n+1]]

IdentSwitchActive == [n \in 0..1 |-> <<
  "0 - Ident switch not active",
  "1 - Ident switch active - retained for 18 +/-1 seconds">>[n+1]]

ReceivingATCServices == [n \in 0..1 |-> <<
  "0 - Aircraft not receiving ATC services",
  "1 - Aircraft receiving ATC services">>[n+1]]

NavigationalAccuracyCategoryPosition == [n \in 0..15 |-> <<
  "0 - EPU >= 18.52 km (10 NM) - Unknown accuracy",
  "1 - EPU < 18.52 km (10 NM) - RNP-10 accuracy",
  "2 - EPU < 7.408 km (4 NM) - RNP-4 accuracy",
  "3 - EPU < 3.704 km (2 NM) - RNP-2 accuracy",
  "4 - EPU < 1 852 m (1 NM) - RNP-1 accuracy",
  "5 - EPU < 926 m (0.5 NM) - RNP-0.5 accuracy",
  "6 - EPU < 555.6 m ( 0.3 NM) - RNP-0.3 accuracy",
  "7 - EPU < 185.2 m (0.1 NM) - RNP-0.1 accuracy",
  "8 - EPU < 92.6 m (0.05 NM) - e.g. GPS (with SA)",
  "9 - EPU < 30 m and VEPU < 45 m - e.g. GPS (SA off)",
  "10 - EPU < 10 m and VEPU < 15 m - e.g. WAAS",
  "11 - EPU < 3 m and VEPU < 4 m - e.g. LAAS",
  "12 - Reserved",
  "13 - Reserved",
  "14 - Reserved",
  "15 - Reserved">>[n+1]]

ProbabilityOfExceedingTheHorizontalCon == [n \in 0..3 |-> <<
  "Unknown",
  "<= 1 * 10^-3 per flight hour or per sample",
  "<= 1 * 10^-5 per flight hour or per sample",
  "<= 1 * 10^-7 per flight hour or per sample">>[n+1]]

ProbabilityOfExceedingTheVerticalInteg == [n \in 0..3 |-> <<
  "Unknown",
  "<= 1 * 10^-3 per flight hour or per sample",
  "<= 1 * 10^-5 per flight hour or per sample",
  "<= 2 * 10^-7 per 150 seconds or per sample">>[n+1]]

NICBaro == [n \in 0..1 |-> <<
  "0 - barometric altitude based on a Gilham input that has not been cross-checked",
  "1 - barometric altitude based on a Gilham input that has been cross-checked or on a non Gilham input">>[n+1]]

HorizontalReferenceDirection == [n \in 0..1 |-> <<
  "0 - true north",
  "1 - magnetic north">>[n+1]]

ACASOperational == [n \in 0..1 |-> <<
  "0 - TCAS/ACAS is NOT Operational",
  "1 - TCAS/ACAS IS Operational">>[n+1]]

1090ESIN1090MHzExtendedSquitter == [n \in 0..1 |-> <<
  "0 - Aircraft has NO 1090ES Receive capability",
  "1 - Aircraft has 1090ES Receive capability">>[n+1]]

UATINUniversalAccessTransceiver == [n \in 0..1 |-> <<
  "0 - Aircraft has No UAT Receive capability",
  "1 - Aircraft has UAT Receive capability">>[n+1]]

ACASResolutionAdvisoryActive2 == [n \in 0..1 |-> <<
  "0 - TCAS II or ACAS RA not active",
  "1 - TCAS/ACAS RA is active">>[n+1]]

SingleAntennaFlag2 == [n \in 0..1 |-> <<
  "0 - Systems with two functioning antennas",
  "1 - Systems that use only one antenna">>[n+1]]

SystemDesignAssurance == [n \in 0..3 |-> <<
  "0 - Not Applicable",
  "1 - Level D",
  "2 - Level C",
  "3 - Level B">>[n+1]]

NavigationalAccuracyCategoryPosition2 == [n \in 0..15 |-> <<
  "0 - EPU >= 18.52 km (10 NM) - Unknown accuracy",
  "1 - EPU < 18.52 km (10 NM) - RNP-10 accuracy",
  "2 - EPU < 7.408 km (4 NM) - RNP-4 accuracy",
  "3 - EPU < 3.704 km (2 NM) - RNP-2 accuracy",
  "4 - EPU < 1 852 m (1 NM) - RNP-1 accuracy",
  "5 - EPU < 926 m (0.5 NM) - RNP-0.5 accuracy",
  "6 - EPU < 555.6 m ( 0.3 NM) - RNP-0.3 accuracy",
  "7 - EPU < 185.2 m (0.1 NM) - RNP-0.1 accuracy",
  "8 - EPU < 92.6 m (0.05 NM) - e.g. GPS (with SA)",
  "9 - EPU < 30 m - e.g. GPS (SA off)",
  "10 - EPU < 10 m - e.g. WAAS",
  "11 - EPU < 3 m - e.g. LAAS",
  "12 - Reserved",
  "13 - Reserved",
  "14 - Reserved",
  "15 - Reserved">>[n+1]]

GeometricVerticalAccuracy == [n \in 0..3 |-> <<
  "0 - Unknown or GVA >= 150 meters",
  "1 - GVA <= 150 meters",
  "2 - GVA <= 45 meters",
  "3 - reserved">>[n+1]]

SourceIntegrityReaderLevel == [n \in 0..3 |-> <<
  "0 - Unknown or SIL > 1 * 10^-3 per flight hour or per sample",
  "1 - SIL <= 1 * 10^-3 per flight hour or per sample",
  "2 - SIL <= 1 * 10^-5 per flight hour or per sample",
  "3 - SIL <= 1 * 10^-7 per flight hour or per sample">>[n+1]]

SourceIntegrityReaderLevelSupplement == [n \in 0..1 |-> <<
  "0 - Probability of exceeding NIC radius of containment is based on \"per hour\"",
  "1 - Probability of exceeding NIC radius of containment is based on \"per sample\"">>[n+1]]

PositionOffsetApplied == [n \in 0..1 |-> <<
  "0 - Position transmitted is not the ADS-B position reference point",
  "1 - Position transmitted is the ADS-B position reference point">>[n+1]]

B2Low == [n \in 0..1 |-> <<
  "0 - Greater than or equal to 70 Watts transmit power",
  "1 - Less than 70 Watts transmit power">>[n+1]]

AircraftLengthAndWidth == [n \in 0..15 |-> <<
  "0 - Length lower than 15 meters and Width lower than 11.5 meters",
  "1 - Length lower than 15 meters and Width lower than 23 meters",
  "2 - Length lower than 25 meters and Width lower than 28.5 meters",
  "3 - Length lower than 25 meters and Width lower than 34 meters",
  "4 - Length lower than 35 meters and Width lower than 33 meters",
  "5 - Length lower than 35 meters and Width lower than 38 meters",
  "6 - Length lower than 45 meters and Width lower than 39.5 meters",
  "7 - Length lower than 45 meters and Width lower than 45 meters",
  "8 - Length lower than 55 meters and Width lower than 45 meters",
  "9 - Length lower than 55 meters and Width lower than 52 meters",
  "10 - Length lower than 65 meters and Width lower than 59 meters",
  "11 - Length lower than 65 meters and Width lower than 67 meters",
  "12 - Length lower than 75 meters and Width lower than 72.5 meters",
  "13 - Length lower than 75 meters and Width lower than 80 meters",
  "14 - Length lower than 85 meters and Width lower than 80 meters",
  "15 - Length lower than 85 meters and Width lower than 90 meters">>[n+1]]

TrackAngleHeading == [n \in 0..1 |-> <<
  "0 - Target heading angle is being reported",
  "1 - Track angle is being reported">>[n+1]]

GPSAntenna == [n \in 0..7 |-> <<
  "Lateral Axis GPS Antenna:      0 - no data",
  "Lateral Axis GPS Antenna:      1 - direction left, 2 meters",
  "Lateral Axis GPS Antenna:      2 - direction left, 4 meters",
  "Lateral Axis GPS Antenna:      3 - direction left, 6 meters",
  "Lateral Axis GPS Antenna:      4 - direction right, 0 meter",
  "Lateral Axis GPS Antenna:      5 - direction right, 2 meters",
  "Lateral Axis GPS Antenna:      6 - direction right, 4 meters",
  "Lateral Axis GPS Antenna:      7 - direction right, 6 meters">>[n+1]]

LongitudinalAxisGPSAntenna == [n \in 0..31 |-> <<
  "0 - no data",
  "1 - Antenna Offset is compensated by the Sensor",
  "2 - 2",
  "3 - 4",
  "4 - 6",
  "5 - 8",
  "6 - 10",
  "7 - 12",
  "8 - 14",
  "9 - 16",
  "10 - 18",
  "11 - 20",
  "12 - 22",
  "13 - 24",
  "14 - 26",
  "15 - 28",
  "16 - 30",
  "17 - 32",
  "18 - 34",
  "19 - 36",
  "20 - 38",
  "21 - 40",
  "22 - 42",
  "23 - 44",
  "24 - 46",
  "25 - 48",
  "26 - 50",
  "27 - 52",
  "28 - 54",
  "29 - 56",
  "30 - 58",
  "31 - 60">>[n+1]]

EmergenyState == [n \in 0..7 |-> <<
  "0 - no emergency",
  "1 - general emergency",
  "2 - lifeguard/medical emergency",
  "3 - minimum fuel",
  "4 - no communications",
  "5 - unlawful interference",
  "6 - downed aircraft",
  "7 - reserved">>[n+1]]

ContinuationFlag == [n \in 0..1 |-> <<
  "0 - last register",
  "1 - subsequent register shall be extracted">>[n+1]]

OverlayCommandCapability == [n \in 0..1 |-> <<
  "0 - No Overlay Command Capability",
  "1 - Overlay Command Capability">>[n+1]]

ACASStatus == [n \in 0..1 |-> <<
  "0 - ACAS Failed or On Standby",
  "1 - ACAS Operational">>[n+1]]

ModeSSubnetworkVersion == [n \in 0..127 |-> <<
  "0 - Mode S subnetwork not available",
  "1 - Mode S subnetwork Version 1 - ICAO Doc 9688 (1996)",
  "2 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)",
  "3 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77",
  "4 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1",
  "5 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2",
  "6 - Unknown code",
  "7 - Unknown code",
  "8 - Unknown code",
  "9 - Unknown code",
  "10 - Unknown code",
  "11 - Unknown code",
  "12 - Unknown code",
  "13 - Unknown code",
  "14 - Unknown code",
  "15 - Unknown code",
  "16 - Unknown code",
  "17 - Unknown code",
  "18 - Unknown code",
  "19 - Unknown code",
  "20 - Unknown code",
  "21 - Unknown code",
  "22 - Unknown code",
  "23 - Unknown code",
  "24 - Unknown code",
  "25 - Unknown code",
  "26 - Unknown code",
  "27 - Unknown code",
  "28 - Unknown code",
  "29 - Unknown code",
  "30 - Unknown code",
  "31 - Unknown code",
  "32 - Unknown code",
  "33 - Unknown code",
  "34 - Unknown code",
  "35 - Unknown code",
  "36 - Unknown code",
  "37 - Unknown code",
  "38 - Unknown code",
  "39 - Unknown code",
  "40 - Unknown code",
  "41 - Unknown code",
  "42 - Unknown code",
  "43 - Unknown code",
  "44 - Unknown code",
  "45 - Unknown code",
  "46 - Unknown code",
  "47 - Unknown code",
  "48 - Unknown code",
  "49 - Unknown code",
  "50 - Unknown code",
  "51 - Unknown code",
  "52 - Unknown code",
  "53 - Unknown code",
  "54 - Unknown code",
  "55 - Unknown code",
  "56 - Unknown code",
  "57 - Unknown code",
  "58 - Unknown code",
  "59 - Unknown code",
  "60 - Unknown code",
  "61 - Unknown code",
  "62 - Unknown code",
  "63 - Unknown code",
  "64 - Unknown code",
  "65 - Unknown code",
  "66 - Unknown code",
  "67 - Unknown code",
  "68 - Unknown code",
  "69 - Unknown code",
  "70 - Unknown code",
  "71 - Unknown code",
  "72 - Unknown code",
  "73 - Unknown code",
  "74 - Unknown code",
  "75 - Unknown code",
  "76 - Unknown code",
  "77 - Unknown code",
  "78 - Unknown code",
  "79 - Unknown code",
  "80 - Unknown code",
  "81 - Unknown code",
  "82 - Unknown code",
  "83 - Unknown code",
  "84 - Unknown code",
  "85 - Unknown code",
  "86 - Unknown code",
  "87 - Unknown code",
  "88 - Unknown code",
  "89 - Unknown code",
  "90 - Unknown code",
  "91 - Unknown code",
  "92 - Unknown code",
  "93 - Unknown code",
  "94 - Unknown code",
  "95 - Unknown code",
  "96 - Unknown code",
  "97 - Unknown code",
  "98 - Unknown code",
  "99 - Unknown code",
  "100 - Unknown code",
  "101 - Unknown code",
  "102 - Unknown code",
  "103 - Unknown code",
  "104 - Unknown code",
  "105 - Unknown code",
  "106 - Unknown code",
  "107 - Unknown code",
  "108 - Unknown code",
  "109 - Unknown code",
  "110 - Unknown code",
  "111 - Unknown code",
  "112 - Unknown code",
  "113 - Unknown code",
  "114 - Unknown code",
  "115 - Unknown code",
  "116 - Unknown code",
  "117 - Unknown code",
  "118 - Unknown code",
  "119 - Unknown code",
  "120 - Unknown code",
  "121 - Unknown code",
  "122 - Unknown code",
  "123 - Unknown code",
  "124 - Unknown code",
  "125 - Unknown code",
  "126 - Unknown code",
  "127 - Unknown code">>[n+1]]

TransponderEnhancedProtocolIndicator == [n \in 0..1 |-> <<
  "0 - Transponder Level 2 to 4",
  "1 - Transponder Level 5">>[n+1]]

ModeSSpecificServicesCapability == [n \in 0..1 |-> <<
  "0 - no Mode S specific service is present",
  "1 - at least one Mode S specific service is present">>[n+1]]

UplinkELMThroughputCapability == [n \in 0..7 |-> <<
  "0 - No UELM Capability",
  "1 - 16 UELM segments in 1 second",
  "2 - 16 UELM segments in 500 milliseconds",
  "3 - 16 UELM segments in 250 milliseconds",
  "4 - 16 UELM segments in 125 milliseconds",
  "5 - 16 UELM segments in 60 milliseconds",
  "6 - 16 UELM segments in 30 milliseconds",
  "7 - Unknown code">>[n+1]]

DownlinkELMThroughputCapability == [n \in 0..15 |-> <<
  "0 - No DEML Capability",
  "1 - One 4 segments DELM every second",
  "2 - One 8 segments DELM every second",
  "3 - One 16 segments DELM every second",
  "4 - One 16 segments DELM every 500 ms",
  "5 - One 16 segments DELM every 250 ms",
  "6 - One 16 segments DELM every 125 ms",
  "7 - Unknown code",
  "8 - Unknown code",
  "9 - Unknown code",
  "10 - Unknown code",
  "11 - Unknown code",
  "12 - Unknown code",
  "13 - Unknown code",
  "14 - Unknown code",
  "15 - Unknown code">>[n+1]]

AircraftIdentificationCapability == [n \in 0..1 |-> <<
  "0 - Aircraft Identification is coming through ADLP",
  "1 - Aircraft Identification is coming through a separate interface">>[n+1]]

SquitterCapabilitySubfield == [n \in 0..1 |-> <<
  "0 - Both registers 05 and 06 have not been updated recently",
  "1 - Both registers 05 and 06 have been updated within the last ten, plus or minus one, seconds">>[n+1]]

SurveillanceIdentifierCode == [n \in 0..1 |-> <<
  "0 - No surveillance identifier code capability",
  "1 - Surveillance identifier code capability">>[n+1]]

CommonUsageGICBCapability == [n \in 0..1 |-> <<
  "0 - The common usage GICB capability report (register 17) is unchange",
  "1 - The common usage GICB capability report (register 17) changed">>[n+1]]

ACASHybridSurveillanceCapability == [n \in 0..1 |-> <<
  "0 - No capability of hybrid surveillance",
  "1 - Capability of hybrid surveillance">>[n+1]]

ACASGenerationCapability == [n \in 0..1 |-> <<
  "0 - The ACAS is generating TAs only",
  "1 - The ACAS is generating both TAs and RAs">>[n+1]]

ACASApplicableDocument == [n \in 0..3 |-> <<
  "RTCA DO-185",
  "RTCA DO-185B",
  "RTCA DO-185A",
  "3 - Unknown code">>[n+1]]

VerticalStatus == [n \in 0..1 |-> <<
  "0 - Airborne",
  "1 - On The Ground">>[n+1]]

CrossLinkCapability == [n \in 0..1 |-> <<
  "0 - Not Supported",
  "1 - Supported">>[n+1]]

SensitivityLevel == [n \in 0..7 |-> <<
  "0 - ACAS Inoperative",
  "1 - Level 1",
  "2 - Level 2",
  "3 - Level 3",
  "4 - Level 4",
  "5 - Level 5",
  "6 - Level 6",
  "7 - Level 7">>[n+1]]

ReplyInformation == [n \in 0..15 |-> <<
  "0 - No Operating ACAS",
  "1 - Reserved ACAS",
  "2 - ACAS with resolution capability inhibited",
  "3 - ACAS with vertical-only resolution capability",
  "4 - ACAS with vertical and horizontal resolution capability",
  "5 - Reserved ACAS",
  "6 - Reserved ACAS",
  "7 - Reserved ACAS",
  "8 - Maximum Air Speed Not Available",
  "9 - Maximum Air Speed 0 To 140 km/h (75 kt)",
  "10 - Maximum AirSpeed 140 To 280 km/h (75 and 150 kt)",
  "11 - Maximum AirSpeed 280 To 560 km/h (150 and 300 kt)",
  "12 - Maximum AirSpeed 560 To 1110 km/h (300 and 600 kt)",
  "13 - Maximum AirSpeed 1110 To 2220 km/h (600 and 1 200 kt)",
  "14 - Maximum Air Speed Over 2220 km/h (1 200 kt)",
  "15 - Not Assigned">>[n+1]]

FrameAltitudeMethod == 1 :> "1 - Not Available" @@
  2 :> "2 - Metric Units" @@
  3 :> "3 - 100 Foot Increments" @@
  4 :> "4 - 25 Foot Increments"

Capability == [n \in 0..7 |-> <<
  "0 - Level 1 Transponder (surveillance only)",
  "1 - Reserved",
  "2 - Reserved",
  "3 - Reserved",
  "4 - Level 2 On The Ground",
  "5 - Level 2 Airborne",
  "6 - Level 2 On The Ground or Airborne",
  "7 - Flight Status (FS) with alert or downlink request (DR)">>[n+1]]

ControlField == [n \in 0..7 |-> <<
  "0 - ADSB (ADS-B ES/NT devices that report the ICAO 24-bit address in the AA field)",
  "1 - ADSB Reserved (reserved for ADS-B for ES/NT devices that use other addressing techniques in the AA field)",
  "2 - TISB Fine Format",
  "3 - TISB Coarse Format",
  "4 - TISB Reserved Management",
  "5 - TISB Relay ADSB",
  "6 - ADSB Rebroadcast (ADS-B rebroadcast using the same type codes and message formats as defined for DF = 17 ADS-B messages)",
  "7 - Reserved">>[n+1]]

ApplicationField == [n \in 0..7 |-> <<
  "0 - Reserved",
  "1 - Reserved",
  "2 - Reserved",
  "3 - Reserved",
  "4 - Reserved",
  "5 - Reserved",
  "6 - Reserved",
  "7 - Reserved">>[n+1]]

FlightStatus == [n \in 0..7 |-> <<
  "0 - No Alert, No SPI, Airborne",
  "1 - No Alert, No SPI, On The Ground",
  "2 - Alert, No SPI, Airborne",
  "3 - Alert, No SPI, On The Ground",
  "4 - Alert, SPI, Airborne",
  "5 - Alert, SPI, On The Ground",
  "6 - Reserved",
  "7 - Reserved">>[n+1]]

DownlinkRequest == [n \in 0..31 |-> <<
  "0 - No Downlink Request",
  "1 - Request To Send Comm-B Message",
  "2 - ACAS message available",
  "3 - Comm-B message available and ACAS message available",
  "4 - Comm-B Message 1 Available",
  "5 - Comm-B Message 2 Available",
  "6 - Comm-B broadcast message 1 available and ACAS message available",
  "7 - Comm-B broadcast message 2 available and ACAS message available",
  "8 - Not Assigned",
  "9 - Not Assigned",
  "10 - Not Assigned",
  "11 - Not Assigned",
  "12 - Not Assigned",
  "13 - Not Assigned",
  "14 - Not Assigned",
  "15 - Not Assigned",
  "16 - ELM Available 1 Segments",
  "17 - ELM Available 2 Segments",
  "18 - ELM Available 3 Segments",
  "19 - ELM Available 4 Segments",
  "20 - ELM Available 5 Segments",
  "21 - ELM Available 6 Segments",
  "22 - ELM Available 7 Segments",
  "23 - ELM Available 8 Segments",
  "24 - ELM Available 9 Segments",
  "25 - ELM Available 10 Segment",
  "26 - ELM Available 11 Segments",
  "27 - ELM Available 12 Segments",
  "28 - ELM Available 13 Segments",
  "29 - ELM Available 14 Segments",
  "30 - ELM Available 15 Segments",
  "31 - ELM Available 16 Segments">>[n+1]]

ControlELM == [n \in 0..1 |-> <<
  "0 - Downlink ELM Transmission",
  "1 - Uplink ELM Acknowledgement">>[n+1]]

Turbulence == [n \in 0..3 |-> <<
  "0 - Nil",
  "1 - Light",
  "2 - Moderate",
  "3 - Severe">>[n+1]]

Source == [n \in 0..15 |-> <<
  "0 - Invalid",
  "1 - INS",
  "2 - GNSS",
  "3 - DME/DME",
  "4 - VOR/DMS",
  "5 - Unknown code",
  "6 - Unknown code",
  "7 - Unknown code",
  "8 - Unknown code",
  "9 - Unknown code",
  "10 - Unknown code",
  "11 - Unknown code",
  "12 - Unknown code",
  "13 - Unknown code",
  "14 - Unknown code",
  "15 - Unknown code">>[n+1]]

TurbulenceFlag == [n \in 0..1 |-> <<
  "0 - turbulence data not available in Register 45",
  "1 - turbulence data available in Register 45">>[n+1]]

StatusOfModeBits == [n \in 0..1 |-> <<
  "0 - No mode information provided",
  "1 - Mode information deliberately provided">>[n+1]]

StatusOfTargetAltitudeSource == [n \in 0..1 |-> <<
  "0 - No source information provided",
  "1 - Source information deliberately provided">>[n+1]]

TargetAltitudeSource == [n \in 0..3 |-> <<
  "0 - Unknown",
  "1 - Aircraft altitude",
  "2 - FCU/MCP selected altitude",
  "3 - FMS selected altitude">>[n+1]]

TransmissionRateSubfield == [n \in 0..3 |-> <<
  "0 - No capability to determine surface squitter rate",
  "1 - High surface squitter rate selected",
  "2 - Low surface squitter rate selected",
  "3 - Unknown code">>[n+1]]

AltitudeTypeSubfield == [n \in 0..1 |-> <<
  "0 - Barometric altitude",
  "1 - GNSS height (HAE)">>[n+1]]

VerticalDataAvailableSourceIndicator == [n \in 0..3 |-> <<
  "0 - no valid Vertical Target State data is available",
  "1 - autopilot control panel selected value, such as Mode Control Panel (MCP) or Flight Control Unit (FCU)",
  "2 - holding altitude",
  "3 - FMS/RNAV system">>[n+1]]

TargetAltitudeType == [n \in 0..1 |-> <<
  "0 - referenced to pressure-altitude (flight level)",
  "1 - referenced to barometric corrected altitude (mean sea level)">>[n+1]]

TargetAltitudeCapability == [n \in 0..3 |-> <<
  "0 - capability for reporting holding altitude only",
  "1 - capability for reporting either holding altitude or autopilot control panel	selected altitude",
  "2 - capability for reporting either holding altitude, autopilot control panel selected altitude, or any FMS/RNAV level-off altitude",
  "3 - Reserved">>[n+1]]

VerticalModeIndicator == [n \in 0..3 |-> <<
  "0 - unknown mode or information unavailable",
  "1 - \"Acquiring\" Mode",
  "2 - \"Capturing\" or \"Maintaining\" Mode",
  "3 - Reserved">>[n+1]]

TargetAltitudeStatus == 1 :> "Regular value" @@
  2 :> "Maximum"

HorizontalDataAvailableSourceIndicator == [n \in 0..3 |-> <<
  "0 - no valid horizontal target state data is available",
  "1 - autopilot control panel selected value, such as Mode Control Panel (MCP) or Flight Control Unit (FCU)",
  "2 - maintaining current heading or track angle (e.g. autopilot mode select)",
  "3 - FMS/RNAV system (indicates track angle specified by leg type)">>[n+1]]

TargetHeadingTrackIndicator == [n \in 0..1 |-> <<
  "0 - target heading angle is being reported",
  "1 - track angle is being reported">>[n+1]]

SurveillanceIntegrityReaderLevel == [n \in 0..3 |-> <<
  "Probability of exceeding the Horizontal Containment Radius reported in the NIC Subfield without an indication: Unknown",
  "Probability of exceeding the Horizontal Containment Radius reported in the NIC Subfield without an indication: <= 1 * 10^-3 per flight hour or per sample",
  "Probability of exceeding the Horizontal Containment Radius reported in the NIC Subfield without an indication: <= 1 * 10^-5 per flight hour or per sample",
  "Probability of exceeding the Horizontal Containment Radius reported in the NIC Subfield without an indication: <= 1 * 10^-7 per flight hour or per sample">>[n+1]]

CapabilityModeCodes == [n \in 0..3 |-> <<
  "0 - TCAS/ACAS operational or unknown + No TCAS/ACAS Resolution Advisory active",
  "1 - TCAS/ACAS operational or unknown + TCAS/ACAS Resolution Advisory active",
  "2 - TCAS/ACAS not operational + No TCAS/ACAS Resolution Advisory active",
  "3 - TCAS/ACAS not operational + TCAS/ACAS Resolution Advisory active">>[n+1]]

SelectedAltitudeType == [n \in 0..1 |-> <<
  "0 - MCP/FCU (Mode Control Panel / Flight Control Unit)",
  "1 - FMS (Flight Management System)">>[n+1]]

SelectedAltitudeStatus == [n \in 0..1 |-> <<
  "No information",
  "Regular value">>[n+1]]

SelectedHeadingStatus == [n \in 0..1 |-> <<
  "0 - selected heading data is either not available or is invalid",
  "1 - selected heading data is valid">>[n+1]]

StatusOfMCPFPUModeBits == [n \in 0..1 |-> <<
  "0 - no information provided for MCP/FCU mode bits",
  "1 - information provided for MCP/FCU mode bits">>[n+1]]

\* ---------------------------------------------------------------------------------------------------------------
\* The messages. c: the content of the message.

T_ADSB_AirbornePositionType0(c) == <<
  L("Message", "BDS 0,5 - Extended squitter airborne position"),
  I("Format Type Code", c[2]),
  E("Surveillance Status", c[3], SurveillanceStatus),
  E("Single Antenna Flag", c[4], SingleAntennaFlag),
  E("Altitude Source", c[5], AltitudeSource),
  E("Altitude Report Method", c[6], AltitudeReportMethod),
  I("Altitude (feet)", c[7]),
  E("Time", c[8], Time),
  E("Compact Position Reporting Format", c[9], CompactPositionReportingFormat),
  I("Encoded Latitude", c[10]),
  I("Encoded Longitude", c[11]),
  L("Navigation Integrity Category", "0")>>

T_ADSB_AirbornePositionV0(c) == <<
  L("Message", "BDS 0,5 - Extended squitter airborne position"),
  I("Format Type Code", c[2]),
  E("Surveillance Status", c[3], SurveillanceStatus),
  E("Single Antenna Flag", c[4], SingleAntennaFlag),
  E("Altitude Source", c[5], AltitudeSource),
  E("Altitude Report Method", c[6], AltitudeReportMethod),
  I("Altitude (feet)", c[7]),
  E("Time", c[8], Time),
  E("Compact Position Reporting Format", c[9], CompactPositionReportingFormat),
  I("Encoded Latitude", c[10]),
  I("Encoded Longitude", c[11]),
  E("Horizontal Protection Limit", c[2], HorizontalProtectionLimit),
  E("Containment Radius", c[2], ContainmentRadius)>>

T_ADSB_AirbornePositionV1(c) == <<
  L("Message", "BDS 0,5 - Extended squitter airborne position"),
  I("Format Type Code", c[2]),
  E("Surveillance Status", c[3], SurveillanceStatus),
  E("Single Antenna Flag", c[4], SingleAntennaFlag),
  E("Altitude Source", c[5], AltitudeSource),
  E("Altitude Report Method", c[6], AltitudeReportMethod),
  I("Altitude (feet)", c[7]),
  E("Time", c[8], Time),
  E("Compact Position Reporting Format", c[9], CompactPositionReportingFormat),
  I("Encoded Latitude", c[10]),
  I("Encoded Longitude", c[11]),
  F("Navigation Integrity Code A", c[14]),
  E("Horizontal Containment Radius", c[15], HorizontalContainmentRadius),
  I("Navigation Integrity Category", c[16])>>

T_ADSB_AirbornePositionV2(c) == <<
  L("Message", "BDS 0,5 - Extended squitter airborne position"),
  I("Format Type Code", c[2]),
  E("Surveillance Status", c[3], SurveillanceStatus),
  E("Single Antenna Flag", c[4], SingleAntennaFlag),
  E("Altitude Source", c[5], AltitudeSource),
  E("Altitude Report Method", c[6], AltitudeReportMethod),
  I("Altitude (feet)", c[7]),
  E("Time", c[8], Time),
  E("Compact Position Reporting Format", c[9], CompactPositionReportingFormat),
  I("Encoded Latitude", c[10]),
  I("Encoded Longitude", c[11]),
  F("Navigation Integrity Code A", c[14]),
  I("Navigation Integrity Code B", c[15]),
  E("Horizontal Containment Radius", c[16], HorizontalContainmentRadius2),
  I("Navigation Integrity Category", c[17])>>

T_ADSB_NoPositionInformation(c) == <<
  L("Message", "No Position Information"),
  I("Format Type Code", c[2]),
  I("Altitude Baro (feet)", c[3]),
  L("Navigation Integrity Category", "0")>>

T_ADSB_SurfacePositionV0(c) == <<
  L("Message", "BDS 0,6 - Extended squitter surface position"),
  I("Format Type Code", c[2]),
  L("Movement Status", MovementText(c[3])),
  M("Movement Speed (knots)", c[4]),
  F("Ground Track Status", c[5]),
  M("Ground Track (degrees)", c[6]),
  E("Time", c[7], Time),
  E("Compact Position Reporting Format", c[8], CompactPositionReportingFormat),
  I("Encoded Latitude", c[9]),
  I("Encoded Longitude", c[10]),
  E("Horizontal Protection Limit", c[2], HorizontalProtectionLimit2),
  E("Containment Radius", c[2], ContainmentRadius2)>>

T_ADSB_SurfacePositionV1(c, a) == <<
  L("Message", "BDS 0,6 - Extended squitter surface position"),
  I("Format Type Code", c[2]),
  L("Movement Status", MovementText(c[3])),
  M("Movement Speed (knots)", c[4]),
  F("Ground Track Status", c[5]),
  M("Ground Track (degrees)", c[6]),
  E("Time", c[7], Time),
  E("Compact Position Reporting Format", c[8], CompactPositionReportingFormat),
  I("Encoded Latitude", c[9]),
  I("Encoded Longitude", c[10]),
  F("Navigation Integrity Code A", a),
  E("Horizontal Containment Limit", c[13], HorizontalContainmentLimit),
  I("Navigation Integrity Category", c[14])>>

T_ADSB_SurfacePositionV2(c, a, s) == <<
  L("Message", "BDS 0,6 - Extended squitter surface position"),
  I("Format Type Code", c[2]),
  L("Movement Status", MovementText(c[3])),
  M("Movement Speed (knots)", c[4]),
  F("Ground Track Status", c[5]),
  M("Ground Track (degrees)", c[6]),
  E("Time", c[7], Time),
  E("Compact Position Reporting Format", c[8], CompactPositionReportingFormat),
  I("Encoded Latitude", c[9]),
  I("Encoded Longitude", c[10]),
  F("Navigation Integrity Code A", a),
  F("Navigation Integrity Code C", s),
  E("Horizontal Containment Limit", c[13], HorizontalContainmentLimit2),
  I("Navigation Integrity Category", c[14])>>

T_AirbornePosition(c) == <<
  L("Message", "BDS 0,5 - Extended squitter airborne position"),
  I("Format Type Code", c[2]),
  E("Surveillance Status", c[3], SurveillanceStatus),
  E("Single Antenna Flag", c[4], SingleAntennaFlag),
  E("Altitude Source", c[5], AltitudeSource),
  E("Altitude Report Method", c[6], AltitudeReportMethod),
  I("Altitude (feet)", c[7]),
  E("Time", c[8], Time),
  E("Compact Position Reporting Format", c[9], CompactPositionReportingFormat),
  I("Encoded Latitude", c[10]),
  I("Encoded Longitude", c[11])>>

T_AirborneVelocityAirSpeedNormal(c) == <<
  L("Message", "BDS 0,9 - Extended squitter airborne velocity"),
  L("Subtype", "3 - Airspeed,Heading / Normal"),
  E("Intent Change", c[4], IntentChange),
  E("IFR Capability", c[5], IFRCapability),
  E("Navigation Uncertainty Category", c[6], NavigationUncertaintyCategory),
  E("Magnetic Heading Status", c[7], MagneticHeadingStatus),
  M("Magnetic Heading (degrees)", c[8]),
  E("Air Speed Status", c[9], AirSpeedStatus),
  I("Air Speed (knots)", c[10]),
  E("Vertical Rate Source", c[11], VerticalRateSource),
  E("Vertical Rate Status", c[12], AirSpeedStatus),
  I("Vertical Rate (ft/min)", c[13]),
  E("Geom. Height Diff. From Baro Status", c[14], AirSpeedStatus),
  I("Geom. Height Diff. From Baro (ft)", c[15])>>

T_AirborneVelocityAirSpeedSupersonic(c) == <<
  L("Message", "BDS 0,9 - Extended squitter airborne velocity"),
  L("Subtype", "4 - Airspeed,Heading / Supersonic"),
  E("Intent Change", c[4], IntentChange),
  E("IFR Capability", c[5], IFRCapability),
  E("Navigation Uncertainty Category", c[6], NavigationUncertaintyCategory),
  E("Magnetic Heading Status", c[7], MagneticHeadingStatus),
  M("Magnetic Heading (degrees)", c[8]),
  E("Air Speed Status", c[9], AirSpeedStatus),
  I("Air Speed (knots)", c[10]),
  E("Vertical Rate Source", c[11], VerticalRateSource),
  E("Vertical Rate Status", c[12], AirSpeedStatus),
  I("Vertical Rate (ft/min)", c[13]),
  E("Geom. Height Diff. From Baro Status", c[14], AirSpeedStatus),
  I("Geom. Height Diff. From Baro (ft)", c[15])>>

T_AirborneVelocityGroundSpeedNormal(c) == <<
  L("Message", "BDS 0,9 - Extended squitter airborne velocity"),
  L("Subtype", "1 - GroundSpeed / Normal"),
  E("Intent Change", c[4], IntentChange),
  E("IFR Capability", c[5], IFRCapability),
  E("Navigation Uncertainty Category", c[6], NavigationUncertaintyCategory),
  E("Direction EW", c[7], DirectionEW),
  E("Velocity EW Status", c[8], AirSpeedStatus),
  I("Velocity EW (knots)", c[9]),
  E("Direction NS", c[10], DirectionNS),
  E("Velocity NS Status", c[11], AirSpeedStatus),
  I("Velocity NS (knots)", c[12]),
  E("Vertical Rate Source", c[13], VerticalRateSource),
  E("Vertical Rate Status", c[14], AirSpeedStatus),
  I("Vertical Rate (ft/min)", c[15]),
  E("Difference Alt. GNSS Baro Status", c[16], AirSpeedStatus),
  I("Difference Alt. GNSS Baro (ft)", c[17]),
  Computed("Computed Speed", "(knots)", c[8], c[11]),
  Computed("Computed Track", "(degrees)", c[8], c[11])>>

T_AirborneVelocityGroundSpeedSupersonic(c) == <<
  L("Message", "BDS 0,9 - Extended squitter airborne velocity"),
  L("Subtype", "2 - GroundSpeed / Supersonic"),
  E("Intent Change", c[4], IntentChange),
  E("IFR Capability", c[5], IFRCapability),
  E("Navigation Uncertainty Category", c[6], NavigationUncertaintyCategory),
  E("Direction EW", c[7], DirectionEW),
  E("Velocity EW Status", c[8], AirSpeedStatus),
  I("Velocity EW (knots)", c[9]),
  E("Direction NS", c[10], DirectionNS),
  E("Velocity NS Status", c[11], AirSpeedStatus),
  I("Velocity NS (knots)", c[12]),
  E("Vertical Rate Source", c[13], VerticalRateSource),
  E("Vertical Rate Status", c[14], AirSpeedStatus),
  I("Vertical Rate (ft/min)", c[15]),
  E("Difference Alt. GNSS Baro Status", c[16], AirSpeedStatus),
  I("Difference Alt. GNSS Baro (ft)", c[17]),
  Computed("Computed Speed", "(knots)", c[8], c[11]),
  Computed("Computed Track", "(degrees)", c[8], c[11])>>

T_AircraftIdentification(c) == <<
  L("Message", "BDS 2,0 - Aircraft identification"),
  L("Identification", Trimmed(c[2]))>>

T_AircraftIdentificationAndCategory(c) == <<
  L("Message", "BDS 0,8 - Extended squitter aircraft identification and category"),
  I("Format Type Code", c[2]),
  E("Category", c[4], Category(c[2])),
  L("Identification", Trimmed(c[5]))>>

T_AircraftOperationalStatusADSB0(c) == <<
  L("Message", "BDS 6,5 - Extended squitter aircraft operational status"),
  E("En Route Operational Capabilities", c[4], EnRouteOperationalCapabilities),
  E("En Route Operational Capability Status", c[8], EnRouteOperationalCapabilities),
  E("Terminal Area Operational Capabilities", c[5], EnRouteOperationalCapabilities),
  E("Terminal Area Operational Capability Status", c[9], EnRouteOperationalCapabilities),
  E("Approach/Landing Operational Capabilities", c[6], EnRouteOperationalCapabilities),
  E("Approach/Landing Operational Capability Status", c[10], EnRouteOperationalCapabilities),
  E("SubtypeSurface Operational Capabilities", c[7], EnRouteOperationalCapabilities),
  E("SubtypeSurface Operational Capability Status", c[11], EnRouteOperationalCapabilities)>>

T_AircraftOperationalStatusAirborneADSB1(c) == <<
  L("Message", "BDS 6,5 - Extended squitter aircraft operational status"),
  L("Subtype", "0 - Airborne Status Message"),
  L("Airborne Capability Class", ""),
  E("Not ACAS Status", c[4], NotACASStatus),
  E("Cockpit Display Of Traffic Information Status", c[5], CockpitDisplayOfTrafficInformationStat),
  E("Air Referenced Velocity Report Capability", c[6], AirReferencedVelocityReportCapability),
  E("Target State Report Capability", c[7], TargetStateReportCapability),
  E("Target Change Report Capability", c[8], TargetChangeReportCapability),
  L("Operational Mode", ""),
  E("ACAS Resolution Advisory Active", c[9], ACASResolutionAdvisoryActive),
  E("Ident Switch Active", c[10], IdentSwitchActive),
  E("Receiving ATC Services", c[11], ReceivingATCServices),
  L("ADSB Version Number", "1 - ADSB V1: Conformant to Doc 9871, Appendix B"),
  I("NIC Supplement", c[13]),
  E("Navigational Accuracy Category Position", c[14], NavigationalAccuracyCategoryPosition),
  L("Surveillance Integrity ReaderLevel", ""),
  E("Probability of exceeding the Horizontal Containment Radius reported in the NIC Subfield without an indication", c[15], ProbabilityOfExceedingTheHorizontalCon),
  E("Probability of exceeding the Vertical Integrity Containment Region (VPL) without an indication", c[15], ProbabilityOfExceedingTheVerticalInteg),
  E("NIC Baro", c[16], NICBaro),
  E("Horizontal Reference Direction", c[17], HorizontalReferenceDirection)>>

T_AircraftOperationalStatusAirborneADSB2(c) == <<
  L("Message", "BDS 6,5 - Extended squitter aircraft operational status"),
  L("Subtype", "0 - Airborne Status Message"),
  L("SubtypeAirborne Capability Class", ""),
  E("ACAS Operational", c[4], ACASOperational),
  E("1090ES IN (1090 MHz Extended Squitter)", c[5], 1090ESIN1090MHzExtendedSquitter),
  E("ARV (Air-Referenced Velocity Report Capability)", c[6], AirReferencedVelocityReportCapability),
  E("Target State Report Capability", c[7], TargetStateReportCapability),
  E("Target Change Report Capability", c[8], TargetChangeReportCapability),
  E("UAT IN (Universal Access Transceiver)", c[9], UATINUniversalAccessTransceiver),
  L("Operational Mode", ""),
  E("ACAS Resolution Advisory Active", c[10], ACASResolutionAdvisoryActive2),
  E("Ident Switch Active", c[11], IdentSwitchActive),
  E("Single Antenna Flag", c[12], SingleAntennaFlag2),
  E("System Design Assurance", c[13], SystemDesignAssurance),
  L("ADSB Version Number", "2 - ADSB V2: Conformant to Doc 9871, Appendix C"),
  I("NIC Supplement", c[15]),
  E("Navigational Accuracy Category Position", c[16], NavigationalAccuracyCategoryPosition2),
  E("Geometric Vertical Accuracy", c[17], GeometricVerticalAccuracy),
  E("Source Integrity ReaderLevel", c[18], SourceIntegrityReaderLevel),
  E("Source Integrity ReaderLevel Supplement", c[21], SourceIntegrityReaderLevelSupplement),
  E("NIC Baro", c[19], NICBaro),
  E("Horizontal Reference Direction", c[20], HorizontalReferenceDirection)>>

T_AircraftOperationalStatusSurfaceADSB1(c) == <<
  L("Message", "BDS 6,5 - Extended squitter aircraft operational status"),
  L("Subtype", "1 - Surface Status Message"),
  L("SubtypeAirborne Capability Class", ""),
  E("Position Offset Applied", c[4], PositionOffsetApplied),
  E("Cockpit Display Of Traffic Information Status", c[5], CockpitDisplayOfTrafficInformationStat),
  E("B2Low", c[6], B2Low),
  E("Aircraft Length And Width", c[7], AircraftLengthAndWidth),
  L("Operational Mode", ""),
  E("ACAS Resolution Advisory Active", c[8], ACASResolutionAdvisoryActive),
  E("Ident Switch Active", c[9], IdentSwitchActive),
  E("Receiving ATC Services", c[10], ReceivingATCServices),
  L("ADSB Version Number", "1 - ADSB V1: Conformant to Doc 9871, Appendix B"),
  I("NIC Supplement", c[12]),
  E("Navigational Accuracy Category Position", c[13], NavigationalAccuracyCategoryPosition),
  L("Surveillance Integrity ReaderLevel", ""),
  E("Probability of exceeding the Horizontal Containment Radius reported in the NIC Subfield without an indication", c[14], ProbabilityOfExceedingTheHorizontalCon),
  E("Probability of exceeding the Vertical Integrity Containment Region (VPL) without an indication", c[14], ProbabilityOfExceedingTheVerticalInteg),
  E("Track Angle / Heading", c[15], TrackAngleHeading),
  E("Horizontal Reference Direction", c[16], HorizontalReferenceDirection)>>

T_AircraftOperationalStatusSurfaceADSB2(c) == <<
  L("Message", "BDS 6,5 - Extended squitter aircraft operational status"),
  L("Subtype", "1 - Surface Status Message"),
  L("SubtypeAirborne Capability Class", ""),
  E("1090ES IN (1090 MHz Extended Squitter)", c[4], 1090ESIN1090MHzExtendedSquitter),
  E("B2 Low (Class B2 Transmit Power Less Than 70 Watts)", c[5], B2Low),
  E("UAT IN (Universal Access Transceiver)", c[6], UATINUniversalAccessTransceiver),
  I("NACV (Navigation Accuracy Category for Velocity)", c[7]),
  I("NIC Supplement-C (NIC Supplement for use on the Surface)", c[8]),
  E("Aircraft Length And Width", c[9], AircraftLengthAndWidth),
  L("Operational Mode", ""),
  E("ACAS Resolution Advisory Active", c[10], ACASResolutionAdvisoryActive2),
  E("Ident Switch Active", c[11], IdentSwitchActive),
  E("Single Antenna Flag", c[12], SingleAntennaFlag2),
  E("System Design Assurance", c[13], SystemDesignAssurance),
  E("GPS Antenna", c[14], GPSAntenna),
  E("Longitudinal Axis GPS Antenna", c[15], LongitudinalAxisGPSAntenna),
  L("ADSB Version Number", "2 - ADSB V2: Conformant to Doc 9871, Appendix C"),
  I("NIC Supplement", c[17]),
  E("Navigational Accuracy Category Position", c[18], NavigationalAccuracyCategoryPosition2),
  E("Source Integrity ReaderLevel", c[19], SourceIntegrityReaderLevel),
  E("Source Integrity ReaderLevel Supplement", c[22], SourceIntegrityReaderLevelSupplement),
  E("Track Angle / Heading", c[20], TrackAngleHeading),
  E("Horizontal Reference Direction", c[21], HorizontalReferenceDirection)>>

T_AircraftStatusEmergency(c) == <<
  L("Message", "BDS 6,1 - Extended squitter emergency/priority status"),
  L("Subtype", "1 - emergency/priority status"),
  E("Emergeny State", c[4], EmergenyState)>>

T_AircraftStatusNoInformation(c) == <<
  L("Message", "BDS 6,1 - Extended squitter emergency/priority status"),
  L("Subtype", "0 - no information"),
  E("Emergency State", c[4], EmergenyState)>>

T_CommonUsageGICBCapabilityReport(c) == <<
  L("Message", "BDS 1,7 - Common usage GICB capability report"),
  F("0,5 Extended squitter airborne position", c[2]),
  F("0,6 Extended squitter surface position", c[3]),
  F("0,7 Extended squitter status", c[4]),
  F("0,8 Extended squitter identification and category", c[5]),
  F("0,9 Extended squitter airborne velocity information", c[6]),
  F("0,A Extended squitter event-driven information", c[7]),
  F("2,0 Aircraft identification", c[8]),
  F("2,l Aircraft registration number", c[9]),
  F("4,0 Selected vertical intention", c[10]),
  F("4,l Next waypoint identifier", c[11]),
  F("4,2 Next waypoint position", c[12]),
  F("4,3 Next waypoint information", c[13]),
  F("4,4 Meteorological routine report", c[14]),
  F("4,5 Meteorological hazard report", c[15]),
  F("4.8 VHF channel report", c[16]),
  F("5,0 Track and turn report", c[17]),
  F("5,1 Position coarse", c[18]),
  F("5,2 Position fine", c[19]),
  F("5,3 Air-referenced state vector", c[20]),
  F("5,4 Waypoint 1", c[21]),
  F("5,5 Waypoint 2", c[22]),
  F("5,6 Waypoint 3", c[23]),
  F("5,F Quasi-static parameter monitoring", c[24]),
  F("6,0 Heading and speed report", c[25]),
  F("F,1 Military applications", c[26])>>

T_DataLinkCapabilityReport(c) == <<
  L("Message", "BDS 1,0 - Data link capability report"),
  E("Continuation Flag", c[2], ContinuationFlag),
  E("Overlay Command Capability", c[3], OverlayCommandCapability),
  E("ACAS Status", c[4], ACASStatus),
  E("ModeS Subnetwork Version", c[5], ModeSSubnetworkVersion),
  E("Transponder Enhanced Protocol Indicator", c[6], TransponderEnhancedProtocolIndicator),
  E("ModeS Specific Services Capability", c[7], ModeSSpecificServicesCapability),
  E("Uplink ELM Throughput Capability", c[8], UplinkELMThroughputCapability),
  E("Downlink ELM Throughput Capability", c[9], DownlinkELMThroughputCapability),
  E("Aircraft Identification Capability", c[10], AircraftIdentificationCapability),
  E("Squitter Capability Subfield", c[11], SquitterCapabilitySubfield),
  E("Surveillance Identifier Code", c[12], SurveillanceIdentifierCode),
  E("Common Usage GICB Capability", c[13], CommonUsageGICBCapability),
  E("ACAS Hybrid Surveillance Capability", c[14], ACASHybridSurveillanceCapability),
  E("ACAS Generation Capability", c[15], ACASGenerationCapability),
  E("ACAS Applicable Document", c[16], ACASApplicableDocument),
  L("DTE SubAddress Statuses", Statuses(c[17]))>>

T_FRAME_MessageDF0(c) == <<
  L("Downlink format", "0 - Short air-air surveillance (ACAS)"),
  E("VerticalStatus", c[2], VerticalStatus),
  E("CrossLinkCapability", c[3], CrossLinkCapability),
  E("SensitivityLevel", c[4], SensitivityLevel),
  E("ReplyInformation", c[5], ReplyInformation),
  E("AltitudeReportMethod", c[7], FrameAltitudeMethod),
  I("Altitude", c[8])>>

T_FRAME_MessageDF11(c) == <<
  L("Downlink format", "11 - All-call reply"),
  E("Capability", c[2], Capability),
  L("AddressAnnounced", Address(c[3]))>>

T_FRAME_MessageDF16(c) == <<
  L("Downlink format", "16 - Long air-air surveillance (ACAS)"),
  E("VerticalStatus", c[2], VerticalStatus),
  E("SensitivityLevel", c[3], SensitivityLevel),
  E("ReplyInformation", c[4], ReplyInformation),
  E("AltitudeReportMethod", c[7], FrameAltitudeMethod),
  I("Altitude", c[8]),
  L("Message ACAS", Slice(c[5]))>>

T_FRAME_MessageDF17(c) == <<
  L("Downlink format", "17 - Extended squitter"),
  E("Capability", c[2], Capability),
  L("AddressAnnounced", Address(c[3])),
  L("MessageExtendedSquitter", Hex(c[4]))>>

T_FRAME_MessageDF18(c) == <<
  L("Downlink format", "18 - Extended squitter/non transponder"),
  E("ControlField", c[2], ControlField),
  L("AddressAnnounced", Address(c[3])),
  L("MessageExtendedSquitter", Hex(c[4]))>>

T_FRAME_MessageDF19(c) == <<
  L("Downlink format", "19 - Military extended squitter"),
  E("ApplicationField", c[2], ApplicationField)>>

T_FRAME_MessageDF20(c) == <<
  L("Downlink format", "20 - Comm-B altitude reply"),
  E("FlightStatus", c[2], FlightStatus),
  E("DownlinkRequest", c[3], DownlinkRequest),
  L("UtilityMessage", Utility(c[4], c[5])),
  E("AltitudeReportMethod", c[8], FrameAltitudeMethod),
  I("Altitude", c[9]),
  L("MessageCommB", Hex(c[6]))>>

T_FRAME_MessageDF21(c) == <<
  L("Downlink format", "21 - Comm-B identify reply"),
  E("FlightStatus", c[2], FlightStatus),
  E("DownlinkRequest", c[3], DownlinkRequest),
  L("UtilityMessage", Utility(c[4], c[5])),
  L("Identity", IdentityText(c[7])),
  L("MessageCommB", Hex(c[6]))>>

T_FRAME_MessageDF24(c) == <<
  L("Downlink format", "24 - Comm-D (ELM)"),
  E("ControlELM", c[2], ControlELM),
  I("NumberOfDSegment", c[3]),
  L("MessageCommD", Hex(c[4]))>>

T_FRAME_MessageDF4(c) == <<
  L("Downlink format", "4 - Surveillance, altitude reply"),
  E("FlightStatus", c[2], FlightStatus),
  E("DownlinkRequest", c[3], DownlinkRequest),
  L("UtilityMessage", Utility(c[4], c[5])),
  E("AltitudeReportMethod", c[7], FrameAltitudeMethod),
  I("Altitude", c[8])>>

T_FRAME_MessageDF5(c) == <<
  L("Downlink format", "5 - Surveillance, identify reply"),
  E("FlightStatus", c[2], FlightStatus),
  E("DownlinkRequest", c[3], DownlinkRequest),
  L("UtilityMessage", Utility(c[4], c[5])),
  L("Identity", IdentityText(c[6]))>>

T_HeadingAndTrackReport(c) == <<
  L("Message", "BDS 6,0 - Heading and speed report"),
  F("Magnetic Heading Status", c[2]),
  M("Magnetic Heading (degrees)", c[3]),
  F("Indicated Air Speed Status", c[4]),
  I("Indicated Air Speed (knots)", c[5]),
  F("Mach Status", c[6]),
  M("Mach", c[7]),
  F("Barometric Altitude Rate Status", c[8]),
  I("Barometric Altitude Rate (feet/minute)", c[9]),
  F("Inertial Vertical Velocity Status", c[10]),
  I("Inertial Vertical Velocity (feet/minute)", c[11])>>

T_MeteorologicalHazardReportV0(c) == <<
  L("Message", "BDS 4,5 - Meteorological hazard report"),
  F("Turbulence Status", c[2]),
  E("Turbulence", c[3], Turbulence),
  F("Wind Shear Status", c[4]),
  E("Wind Shear", c[5], Turbulence),
  F("Micro Burst Status", c[6]),
  E("Micro Burst", c[7], Turbulence),
  F("Icing Status", c[8]),
  E("Icing", c[9], Turbulence),
  F("Wake Vortex Status", c[10]),
  E("Wake Vortex", c[11], Turbulence),
  F("Static Air Temperature Status", c[12]),
  M("Static Air Temperature (degrees C)", c[13]),
  F("Average Static Pressure Status", c[14]),
  I("Average Static Pressure (hPa)", c[15]),
  F("Radio Height Status", c[16]),
  I("Radio Height (feet)", c[17])>>

T_MeteorologicalHazardReportV1(c) == <<
  L("Message", "BDS 4,5 - Meteorological hazard report"),
  F("Wind Shear Status", c[2]),
  E("Wind Shear", c[3], Turbulence),
  F("Micro Burst Status", c[4]),
  E("Micro Burst", c[5], Turbulence),
  F("Icing Status", c[6]),
  E("Icing", c[7], Turbulence),
  F("Wake Vortex Status", c[8]),
  E("Wake Vortex", c[9], Turbulence),
  F("Static Air Temperature Status", c[10]),
  M("Static Air Temperature (degrees C)", c[11]),
  L("Average Static Pressure Status", "false"),
  L("Average Static Pressure (hPa)", "0"),
  F("Radio Height Status", c[14]),
  I("Radio Height (feet)", c[15]),
  F("Turbulence Status", c[16]),
  M("Average Turbulence EDR Metric", c[17]),
  M("Peak Turbulence EDR Metric", c[18]),
  I("Turbulence Peak Delay Interval (min)", c[19])>>

T_MeteorologicalRoutineAirReportV0(c) == <<
  L("Message", "BDS 4,4 - Meteorological routine air report"),
  E("Source", c[2], Source),
  F("Wind Speed Status", c[3]),
  I("Wind Speed (knot)", c[4]),
  F("Wind Direction Status", c[5]),
  M("Wind Direction (degrees)", c[6]),
  M("Static Air Temperature (degrees C)", c[7]),
  F("Average Static Pressure Status", c[8]),
  I("Average Static Pressure (hPa)", c[9]),
  F("Turbulence Status", c[10]),
  E("Turbulence", c[11], Turbulence),
  F("Humidity Status", c[12]),
  M("Humidity (%)", c[13])>>

T_MeteorologicalRoutineAirReportV1(c) == <<
  L("Message", "BDS 4,4 - Meteorological routine air report"),
  F("Wind Speed Status", c[2]),
  I("Wind Speed (knot)", c[3]),
  F("Wind Direction Status", c[4]),
  M("Wind Direction (degrees)", c[5]),
  F("Static Air Temperature Status", c[6]),
  M("Static Air Temperature (degrees C)", c[7]),
  F("Average Static Pressure Status", c[8]),
  I("Average Static Pressure (hPa)", c[9]),
  E("Turbulence Flag", c[10], TurbulenceFlag),
  F("Humidity Status", c[11]),
  M("Humidity (%)", c[12])>>

T_MeteorologicalRoutineAirReportV2(c) == <<
  L("Message", "BDS 4,4 - Meteorological routine air report"),
  E("Source", c[2], Source),
  F("Wind Speed Status", c[3]),
  I("Wind Speed (knot)", c[4]),
  F("Wind Direction Status", c[5]),
  M("Wind Direction (degrees)", c[6]),
  F("Static Air Temperature Status", c[7]),
  M("Static Air Temperature (degrees C)", c[8]),
  F("Average Static Pressure Status", c[9]),
  I("Average Static Pressure (hPa)", c[10]),
  E("Turbulence Flag", c[11], TurbulenceFlag),
  F("Humidity Status", c[12]),
  M("Humidity (%)", c[13])>>

T_NoMessageAvailable(c) == <<
  L("Message", "BDS 0,0 - No message waiting for transmission")>>

T_SelectedVerticalIntention(c) == <<
  L("Message", "BDS 4,0 - Selected vertical intention"),
  F("MCP/FCU Selected Altitude Available", c[2]),
  I("MCP/FCU Selected Altitude", c[3]),
  F("FMS Selected Altitude Available", c[4]),
  I("FMS Selected Altitude", c[5]),
  F("Barometric Pressure Setting Available", c[6]),
  M("Barometric Pressure Setting", c[7]),
  E("Status Of Mode Bits", c[8], StatusOfModeBits),
  F("VNAV Mode", c[9]),
  F("Altitude Hold Mode", c[10]),
  F("Approach Mode", c[11]),
  E("Status Of Target Altitude Source", c[12], StatusOfTargetAltitudeSource),
  E("Target Altitude Source", c[13], TargetAltitudeSource)>>

T_Status(c) == <<
  L("Message", "BDS 0,7 -  Extended squitter status"),
  E("Transmission Rate Subfield", c[2], TransmissionRateSubfield),
  E("Altitude Type Subfield", c[3], AltitudeTypeSubfield)>>

T_SurfacePosition(c) == <<
  L("Message", "BDS 0,6 - Extended squitter surface position"),
  I("Format Type Code", c[2]),
  L("Movement Status", MovementText(c[3])),
  M("Movement Speed (knots)", c[4]),
  F("Ground Track Status", c[5]),
  M("Ground Track (degrees)", c[6]),
  E("Time", c[7], Time),
  E("Compact Position Reporting Format", c[8], CompactPositionReportingFormat),
  I("Encoded Latitude", c[9]),
  I("Encoded Longitude", c[10])>>

T_TargetStateAndStatus0(c) == <<
  L("Message", "BDS 6,2 - Target state and status information"),
  L("Subtype", "0 - Subtype 0"),
  E("Vertical Data Available / Source Indicator", c[4], VerticalDataAvailableSourceIndicator),
  E("Target Altitude Type", c[5], TargetAltitudeType),
  E("Target Altitude Capability", c[6], TargetAltitudeCapability),
  E("Vertical Mode Indicator", c[7], VerticalModeIndicator),
  E("Target Altitude Status", c[8], TargetAltitudeStatus),
  I("Target Altitude", c[9]),
  E("Horizontal Data Available / Source Indicator", c[10], HorizontalDataAvailableSourceIndicator),
  E("Target Heading / Track Angle Status", c[11], TargetAltitudeStatus),
  I("Target Heading / Track Angle", c[12]),
  E("Target Heading / Track Indicator", c[13], TargetHeadingTrackIndicator),
  E("Horizontal Mode Indicator", c[14], VerticalModeIndicator),
  E("Navigation Accuracy Category - Position", c[15], NavigationalAccuracyCategoryPosition),
  E("Navigation Integrity Category - Baro", c[16], NICBaro),
  E("Surveillance Integrity ReaderLevel", c[17], SurveillanceIntegrityReaderLevel),
  E("Probability of exceeding the Vertical Integrity Containment Region (VPL) without an indication", c[17], ProbabilityOfExceedingTheVerticalInteg),
  E("Capability / Mode Codes", c[18], CapabilityModeCodes),
  E("Emergency / Priority Status", c[19], EmergenyState)>>

T_TargetStateAndStatus1(c) == <<
  L("Message", "BDS 6,2 - Target state and status information"),
  L("Subtype", "1 - Subtype 1"),
  E("Selected Altitude Type", c[5], SelectedAltitudeType),
  E("Selected Altitude Status", c[6], SelectedAltitudeStatus),
  I("Selected Altitude", c[7]),
  E("Barometric Pressure Setting Status", c[8], SelectedAltitudeStatus),
  M("Barometric Pressure Setting", c[9]),
  E("Selected Heading Status", c[10], SelectedHeadingStatus),
  M("Selected Heading", c[11]),
  E("Navigation Accuracy Category - Position", c[12], NavigationalAccuracyCategoryPosition2),
  E("Navigation Integrity Category - Baro", c[13], NICBaro),
  E("Source Integrity ReaderLevel", c[14], SourceIntegrityReaderLevel),
  E("Source Integrity ReaderLevel Supplement", c[4], SourceIntegrityReaderLevelSupplement),
  E("Status of MCP/FPU Mode Bits", c[15], StatusOfMCPFPUModeBits),
  F("Autopilot Engaged", c[16]),
  F("VNAV Mode Engaged", c[17]),
  F("Altitude Hold Mode Engaged", c[18]),
  F("Approach Mode Engaged", c[19]),
  F("LNAV Mode Engaged", c[21]),
  F("TCAS / ACAS Operational", c[20])>>

T_TrackAndTurnReport(c) == <<
  L("Message", "BDS 5,0 - Track and turn report"),
  F("Roll Angle Status", c[2]),
  M("Roll Angle (degrees)", c[3]),
  F("True Track Angle Status", c[4]),
  M("True Track (degrees)", c[5]),
  F("Ground Speed Status", c[6]),
  I("Ground Speed (knots)", c[7]),
  F("Track Angle Rate Status", c[8]),
  M("Track Angle Rate (degrees/second)", c[9]),
  F("True Air Speed Status", c[10]),
  I("True Air Speed (knots)", c[11])>>

T_AircraftStatusACAS(c) ==
  <<L("Message", "BDS 6,1 - Extended squitter emergency/priority status"), L("Subtype", "2 - TCAS/ACAS RA Broadcast"), L("ACAS Data", "")>>
  \o RaLines(SubSeq(c, 4, Len(c)))
T_ACASResolutionAdvisory(c) ==
  <<L("Message", "BDS 3,0 - ACAS active resolution advisory"), L("ACAS Data", "")>> \o RaLines(Tail(c))

\* ---------------------------------------------------------------------------------------------------------------

\* The text of a content
TextOf(c) ==
  CASE c[1] = "AirbornePosition" -> T_AirbornePosition(c)
    [] c[1] = "AirborneVelocityAirSpeedNormal" -> T_AirborneVelocityAirSpeedNormal(c)
    [] c[1] = "AirborneVelocityAirSpeedSupersonic" -> T_AirborneVelocityAirSpeedSupersonic(c)
    [] c[1] = "AirborneVelocityGroundSpeedNormal" -> T_AirborneVelocityGroundSpeedNormal(c)
    [] c[1] = "AirborneVelocityGroundSpeedSupersonic" -> T_AirborneVelocityGroundSpeedSupersonic(c)
    [] c[1] = "AircraftIdentification" -> T_AircraftIdentification(c)
    [] c[1] = "AircraftIdentificationAndCategory" -> T_AircraftIdentificationAndCategory(c)
    [] c[1] = "AircraftOperationalStatusADSB0" -> T_AircraftOperationalStatusADSB0(c)
    [] c[1] = "AircraftOperationalStatusAirborneADSB1" -> T_AircraftOperationalStatusAirborneADSB1(c)
    [] c[1] = "AircraftOperationalStatusAirborneADSB2" -> T_AircraftOperationalStatusAirborneADSB2(c)
    [] c[1] = "AircraftOperationalStatusSurfaceADSB1" -> T_AircraftOperationalStatusSurfaceADSB1(c)
    [] c[1] = "AircraftOperationalStatusSurfaceADSB2" -> T_AircraftOperationalStatusSurfaceADSB2(c)
    [] c[1] = "AircraftStatusEmergency" -> T_AircraftStatusEmergency(c)
    [] c[1] = "AircraftStatusNoInformation" -> T_AircraftStatusNoInformation(c)
    [] c[1] = "CommonUsageGICBCapabilityReport" -> T_CommonUsageGICBCapabilityReport(c)
    [] c[1] = "DataLinkCapabilityReport" -> T_DataLinkCapabilityReport(c)
    [] c[1] = "HeadingAndTrackReport" -> T_HeadingAndTrackReport(c)
    [] c[1] = "MeteorologicalHazardReportV0" -> T_MeteorologicalHazardReportV0(c)
    [] c[1] = "MeteorologicalHazardReportV1" -> T_MeteorologicalHazardReportV1(c)
    [] c[1] = "MeteorologicalRoutineAirReportV0" -> T_MeteorologicalRoutineAirReportV0(c)
    [] c[1] = "MeteorologicalRoutineAirReportV1" -> T_MeteorologicalRoutineAirReportV1(c)
    [] c[1] = "MeteorologicalRoutineAirReportV2" -> T_MeteorologicalRoutineAirReportV2(c)
    [] c[1] = "NoMessageAvailable" -> T_NoMessageAvailable(c)
    [] c[1] = "SelectedVerticalIntention" -> T_SelectedVerticalIntention(c)
    [] c[1] = "Status" -> T_Status(c)
    [] c[1] = "SurfacePosition" -> T_SurfacePosition(c)
    [] c[1] = "TargetStateAndStatus0" -> T_TargetStateAndStatus0(c)
    [] c[1] = "TargetStateAndStatus1" -> T_TargetStateAndStatus1(c)
    [] c[1] = "TrackAndTurnReport" -> T_TrackAndTurnReport(c)
    [] c[1] = "AircraftStatusACAS" -> T_AircraftStatusACAS(c)
    [] c[1] = "ACASResolutionAdvisory" -> T_ACASResolutionAdvisory(c)
    [] c[1] = "ResolutionAdvisory" -> RaLines(Tail(c))

\* The text of a frame: its header and its altitude or identity
FrameText(m) ==
  LET c == Header(m) \o (IF DF(m) \in WithAltitude THEN FrameAltitude(m) ELSE IF DF(m) \in WithIdentity THEN FrameIdentity(m) ELSE <<>>)
  IN CASE c[1] = "MessageDF0" -> T_FRAME_MessageDF0(c)
       [] c[1] = "MessageDF11" -> T_FRAME_MessageDF11(c)
       [] c[1] = "MessageDF16" -> T_FRAME_MessageDF16(c)
       [] c[1] = "MessageDF17" -> T_FRAME_MessageDF17(c)
       [] c[1] = "MessageDF18" -> T_FRAME_MessageDF18(c)
       [] c[1] = "MessageDF19" -> T_FRAME_MessageDF19(c)
       [] c[1] = "MessageDF20" -> T_FRAME_MessageDF20(c)
       [] c[1] = "MessageDF21" -> T_FRAME_MessageDF21(c)
       [] c[1] = "MessageDF24" -> T_FRAME_MessageDF24(c)
       [] c[1] = "MessageDF4" -> T_FRAME_MessageDF4(c)
       [] c[1] = "MessageDF5" -> T_FRAME_MessageDF5(c)

\* The text of an ADS-B message: the positions tell their integrity too
AdsbText(v, a, s, m) ==
  LET k == Adsb(v, m)[1]
      c == Adsb(v, m) \o Integrity(v, a, s, m)
  IN CASE k = "AirbornePositionType0" -> T_ADSB_AirbornePositionType0(c)
       [] k = "AirbornePositionV0" -> T_ADSB_AirbornePositionV0(c)
       [] k = "AirbornePositionV1" -> T_ADSB_AirbornePositionV1(c)
       [] k = "AirbornePositionV2" -> T_ADSB_AirbornePositionV2(c)
       [] k = "NoPositionInformation" -> T_ADSB_NoPositionInformation(c)
       [] k = "SurfacePositionV0" -> T_ADSB_SurfacePositionV0(c)
       [] k = "SurfacePositionV1" -> T_ADSB_SurfacePositionV1(c, a)
       [] k = "SurfacePositionV2" -> T_ADSB_SurfacePositionV2(c, a, s)
       [] OTHER -> TextOf(Adsb(v, m))

=============================================================================
