--------------------------------- MODULE CommB ---------------------------------
(* The ground initiated Comm-B registers 0,0 0,7 1,0 1,7 2,0 3,0 4,0 4,4 4,5 5,0 6,0 (ICAO Doc 9871, tables A-2-x and    *)
(* their versions 0 in Doc 9688), when their content is coherent, and which registers a Comm-B reply may hold. A   *)
(* Comm-B reply does not say which register it holds.                                                            *)
EXTENDS ExtendedSquitter

CBERR == <<"ERR">>

\* A value goes with a status; without status the value is all zero
Absent(s, v) == s = 0 => v = 0
Some(statuses) == \E i \in 1..Len(statuses) : statuses[i] = 1

Bds00(m) == IF Zero(m, 1, 56) THEN <<"NoMessageAvailable", 1>> ELSE CBERR

\* 0,7 extended squitter status (table A-2-7)
Bds07(m) == IF ~Zero(m, 4, 56) THEN CBERR ELSE <<"Status", U(m,1,2), B(m,3), Bool(U(m,1,2) # 3)>>

\* 1,0 data link capability (table A-2-16)
Bds10(m) ==
  IF U(m,1,8) # 16 \/ ~Zero(m, 10, 14) THEN CBERR
  ELSE <<"DataLinkCapabilityReport", B(m,9), B(m,15), B(m,16), U(m,17,23), B(m,24), B(m,25), U(m,26,28), U(m,29,32),
         B(m,33), B(m,34), B(m,35), B(m,36), B(m,37), B(m,38), U(m,39,40), 256*m[6] + m[7],
         Bool(/\ IF B(m,16) = 0 THEN Zero(m, 37, 40) ELSE U(m,39,40) # 3
              /\ U(m,17,23) <= 5
              /\ U(m,26,28) <= 6
              /\ U(m,29,32) <= 6)>>

\* 1,7 common usage capability (table A-2-23)
Bds17(m) ==
  IF ~Zero(m, 30, 56) THEN CBERR
  ELSE <<"CommonUsageGICBCapabilityReport">> \o [i \in 1..24 |-> B(m, i)] \o <<B(m,29), 1>>

\* 2,0 aircraft identification (table A-2-32)
Bds20(m) == IF U(m,1,8) # 32 THEN CBERR ELSE <<"AircraftIdentification", Ident(m), Bool(IdentLegal(m))>>

\* 3,0 resolution advisory (table A-2-48)
Bds30(m) == IF U(m,1,8) # 48 \/ ~RaLegal(Tail(m)) THEN CBERR ELSE <<"ACASResolutionAdvisory">> \o Ra(Tail(m)) \o <<1>>

\* 4,0 selected vertical intention (table A-2-64)
Bds40(m) ==
  IF ~Zero(m, 40, 47) \/ ~Zero(m, 52, 53) THEN CBERR
  ELSE LET mcp == U(m,2,13)
           fms == U(m,15,26)
           baro == U(m,28,39)
       IN <<"SelectedVerticalIntention", B(m,1), 16*mcp, B(m,14), 16*fms,
            B(m,27), IF B(m,27) = 0 /\ baro = 0 THEN 0 ELSE 800000 + 100*baro,
            B(m,48), B(m,49), B(m,50), B(m,51), B(m,54), U(m,55,56),
            Bool(/\ Some(<<B(m,1), B(m,14), B(m,27)>>)
                 /\ Absent(B(m,1), mcp) /\ Absent(B(m,14), fms) /\ Absent(B(m,27), baro))>>

\* 4,4 meteorological routine report. Temperatures are limited to -80..60 degrees and winds to 250 knots.
TemperatureOK(t) == t >= -80000 /\ t <= 60000

\* With the source (version 2) and without (version 1, bits 1 to 4 at zero)
Mrr12(m) ==
  LET t == 125 * S(m, 25, 35) \* sign and ten bits, eighths of degrees
  IN <<B(m,5), U(m,6,14), B(m,15), Rnd(U(m,16,23)*45000, 32), B(m,24), t, B(m,36), U(m,37,47), B(m,48), B(m,49), 1000*U(m,50,56)>>
Mrr12OK(m) ==
  /\ Some(<<B(m,5), B(m,15), B(m,24), B(m,36), B(m,49)>>)
  /\ Absent(B(m,5), U(m,6,14)) /\ Absent(B(m,15), U(m,16,23)) /\ Absent(B(m,24), U(m,25,35))
  /\ Absent(B(m,36), U(m,37,47)) /\ Absent(B(m,49), U(m,50,56))
  /\ U(m,6,14) <= 250
  /\ TemperatureOK(125 * S(m, 25, 35))

Bds44v1(m) == IF ~Zero(m,1,4) THEN CBERR ELSE <<"MeteorologicalRoutineAirReportV1">> \o Mrr12(m) \o <<Bool(Mrr12OK(m))>>
Bds44v2(m) == <<"MeteorologicalRoutineAirReportV2", U(m,1,4)>> \o Mrr12(m) \o <<Bool(U(m,1,4) <= 4 /\ Mrr12OK(m))>>

\* Version 0 (Doc 9688): one status for the speed and the direction of the wind
Bds44v0(m) ==
  LET t == 250 * S(m, 24, 34)
  IN <<"MeteorologicalRoutineAirReportV0", U(m,1,4), B(m,5), U(m,6,14), B(m,5), Rnd(U(m,15,23)*45000, 64), t,
       B(m,35), U(m,36,46), B(m,47), U(m,48,49), B(m,50), Rnd(U(m,51,56)*25000, 16),
       Bool(/\ Some(<<B(m,5), B(m,35), B(m,47), B(m,50)>>)
            /\ U(m,1,4) <= 4
            /\ Absent(B(m,5), U(m,6,14)) /\ Absent(B(m,5), U(m,15,23)) /\ Absent(B(m,35), U(m,36,46)) /\ Absent(B(m,50), U(m,51,56))
            /\ U(m,6,14) <= 250
            /\ TemperatureOK(t))>>

Bds44(m) == CASE U(m,1,4) = 0 -> Bds44v1(m) [] U(m,1,4) \in 1..4 -> Bds44v2(m) [] OTHER -> CBERR

\* 4,5 meteorological hazard report
Edr(n) == IF 20*n > 1260 THEN 1260 ELSE 20*n

Bds45v0(m) ==
  IF ~Zero(m, 52, 56) THEN CBERR
  ELSE LET t == 250 * S(m, 17, 26)
       IN <<"MeteorologicalHazardReportV0", B(m,1), U(m,2,3), B(m,4), U(m,5,6), B(m,7), U(m,8,9), B(m,10), U(m,11,12),
            B(m,13), U(m,14,15), B(m,16), t, B(m,27), U(m,28,38), B(m,39), 16*U(m,40,51),
            Bool(/\ Some(<<B(m,1), B(m,4), B(m,7), B(m,10), B(m,13), B(m,16), B(m,27), B(m,39)>>)
                 /\ Absent(B(m,1), U(m,2,3)) /\ Absent(B(m,4), U(m,5,6)) /\ Absent(B(m,7), U(m,8,9)) /\ Absent(B(m,10), U(m,11,12))
                 /\ Absent(B(m,13), U(m,14,15)) /\ Absent(B(m,16), t) /\ Absent(B(m,27), U(m,28,38)) /\ Absent(B(m,39), U(m,40,51))
                 /\ TemperatureOK(t))>>

Bds45v1(m) ==
  IF ~Zero(m, 55, 56) THEN CBERR
  ELSE LET t == 125 * S(m, 14, 24)
       IN <<"MeteorologicalHazardReportV1", B(m,1), U(m,2,3), B(m,4), U(m,5,6), B(m,7), U(m,8,9), B(m,10), U(m,11,12),
            B(m,13), t, 0, 0, B(m,25), 2*(256*U(m,26,29) + U(m,30,37)), B(m,38), Edr(U(m,39,44)), Edr(U(m,45,50)), U(m,51,54),
            Bool(/\ Some(<<B(m,1), B(m,4), B(m,7), B(m,10), B(m,13), B(m,25), B(m,38)>>)
                 /\ Absent(B(m,1), U(m,2,3)) /\ Absent(B(m,4), U(m,5,6)) /\ Absent(B(m,7), U(m,8,9)) /\ Absent(B(m,10), U(m,11,12))
                 /\ Absent(B(m,25), U(m,26,37)) /\ Absent(B(m,38), U(m,39,54))
                 /\ (B(m,13) = 1 => TemperatureOK(t)))>>

Bds45(m) == IF Zero(m, 55, 56) THEN Bds45v1(m) ELSE Bds45v0(m)

\* 5,0 track and turn (table A-2-80)
Bds50(m) ==
  LET roll == S(m, 2, 11)
      gs == 2 * U(m,25,34)
      tas == 2 * U(m,47,56)
  IN <<"TrackAndTurnReport", B(m,1), Rnd(roll*5625, 32), B(m,12), Rnd(S(m,13,23)*5625, 32), B(m,24), gs,
       B(m,35), Rnd(S(m,36,45)*125, 4), B(m,46), tas,
       Bool(/\ Some(<<B(m,1), B(m,12), B(m,24), B(m,35), B(m,46)>>)
            /\ Absent(B(m,1), roll) /\ Absent(B(m,12), S(m,13,23)) /\ Absent(B(m,24), gs) /\ Absent(B(m,35), S(m,36,45)) /\ Absent(B(m,46), tas)
            /\ Abs(roll)*45 <= 50*256
            /\ gs <= 600 /\ tas <= 500 /\ Abs(gs - tas) <= 200)>>

\* 6,0 heading and speed (table A-2-96)
Bds60(m) ==
  LET ias == U(m,14,23)
      mach == 4 * U(m,25,34)
      baro == 32 * S(m,36,45)
      inertial == 32 * S(m,47,56)
  IN <<"HeadingAndTrackReport", B(m,1), Rnd(S(m,2,12)*5625, 32), B(m,13), ias, B(m,24), mach, B(m,35), baro, B(m,46), inertial,
       Bool(/\ Some(<<B(m,1), B(m,13), B(m,24), B(m,35), B(m,46)>>)
            /\ Absent(B(m,1), S(m,2,12)) /\ Absent(B(m,13), ias) /\ Absent(B(m,24), mach) /\ Absent(B(m,35), baro) /\ Absent(B(m,46), inertial)
            /\ ias <= 500 /\ mach <= 1000 /\ Abs(baro) <= 6000 /\ Abs(inertial) <= 6000)>>

\* ---------------------------------------------------------------------------------------------------------------
\* The registers a reply may hold

OK(c) == c # CBERR /\ c[Len(c)] = 1
Candidate(c) == IF OK(c) THEN <<c>> ELSE <<>>

Inference(m) ==
  IF Zero(m, 1, 56) THEN <<Bds00(m)>>
  ELSE IF OK(Bds07(m)) THEN <<Bds07(m)>>
  ELSE IF OK(Bds20(m)) THEN <<Bds20(m)>>
  ELSE Candidate(Bds10(m)) \o Candidate(Bds17(m)) \o Candidate(Bds30(m)) \o Candidate(Bds40(m))
       \o Candidate(Bds44(m)) \o Candidate(Bds45(m)) \o Candidate(Bds50(m)) \o Candidate(Bds60(m))

Register(kind) ==
  CASE kind = "NoMessageAvailable" -> "BDS 0,0"
    [] kind = "Status" -> "BDS 0,7"
    [] kind = "DataLinkCapabilityReport" -> "BDS 1,0"
    [] kind = "CommonUsageGICBCapabilityReport" -> "BDS 1,7"
    [] kind = "AircraftIdentification" -> "BDS 2,0"
    [] kind = "ACASResolutionAdvisory" -> "BDS 3,0"
    [] kind = "SelectedVerticalIntention" -> "BDS 4,0"
    [] kind \in {"MeteorologicalRoutineAirReportV0", "MeteorologicalRoutineAirReportV1", "MeteorologicalRoutineAirReportV2"} -> "BDS 4,4"
    [] kind \in {"MeteorologicalHazardReportV0", "MeteorologicalHazardReportV1"} -> "BDS 4,5"
    [] kind = "TrackAndTurnReport" -> "BDS 5,0"
    [] kind = "HeadingAndTrackReport" -> "BDS 6,0"

RegisterOf(kind) ==
  CASE kind = "AirbornePosition" -> "BDS 0,5"
    [] kind = "SurfacePosition" -> "BDS 0,6"
    [] kind = "AircraftIdentificationAndCategory" -> "BDS 0,8"
    [] kind \in {"AirborneVelocityGroundSpeedNormal", "AirborneVelocityGroundSpeedSupersonic",
                 "AirborneVelocityAirSpeedNormal", "AirborneVelocityAirSpeedSupersonic"} -> "BDS 0,9"
    [] kind \in {"AircraftStatusNoInformation", "AircraftStatusEmergency", "AircraftStatusACAS"} -> "BDS 6,1"
    [] kind \in {"TargetStateAndStatus0", "TargetStateAndStatus1"} -> "BDS 6,2"
    [] kind \in {"AircraftOperationalStatusADSB0", "AircraftOperationalStatusAirborneADSB1", "AircraftOperationalStatusAirborneADSB2",
                 "AircraftOperationalStatusSurfaceADSB1", "AircraftOperationalStatusSurfaceADSB2"} -> "BDS 6,5"
    [] OTHER -> Register(kind)

\* What the accessors of a message tell: register, subtype, version of ADS-B, source of the navigation, status of the
\* turbulence; -1 when the message has no such thing.
Accessors(c) ==
  LET r == RegisterOf(c[1]) IN
  <<"GET", r,
    IF r \in {"BDS 0,9", "BDS 6,1", "BDS 6,2"} THEN c[3] ELSE -1,
    CASE c[1] = "AircraftOperationalStatusADSB0" -> 0
      [] c[1] \in {"AircraftOperationalStatusAirborneADSB1", "AircraftOperationalStatusSurfaceADSB1"} -> 1
      [] c[1] \in {"AircraftOperationalStatusAirborneADSB2", "AircraftOperationalStatusSurfaceADSB2"} -> 2
      [] OTHER -> -1,
    \* (the accessor of the version 2 says that the source is invalid, and a test of the library wants it so; the field
    \* itself is right)
    CASE c[1] = "MeteorologicalRoutineAirReportV0" -> c[2]
      [] c[1] \in {"MeteorologicalRoutineAirReportV1", "MeteorologicalRoutineAirReportV2"} -> 0
      [] OTHER -> -1,
    CASE c[1] = "MeteorologicalHazardReportV0" -> c[2]
      [] c[1] = "MeteorologicalHazardReportV1" -> c[16]
      [] OTHER -> -1>>

InferredRegisters(m) == <<"OK">> \o (LET c == Inference(m) IN [i \in 1..Len(c) |-> Register(c[i][1])])
InferredContents(m) == <<"OK">> \o Inference(m)
=============================================================================
