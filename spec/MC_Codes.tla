------------------------------- MODULE MC_Codes -------------------------------
(* The laws of the blocks of the API. One of four walks is taken: over the values of the codes, over the first octets *)
(* of the frames, over the type codes and the versions of the ADS-B messages, over the classes of the radii.          *)
EXTENDS Codes

CONSTANTS Frames, Messages, Versions3,    \* sets of octets: what follows the first octet; the versions
          Codes                           \* the values of the codes

CodedFields(kind) ==
  CASE kind = "ActiveRAOneThreatOrSameSeparation" -> {"PreventiveCorrective", "Sense", "VerticalSpeedLimitOrPositive"}
    [] kind = "AirbornePosition" -> {"AltitudeReportMethod", "AltitudeSource", "CPRFormat", "SingleAntennaFlag", "SurveillanceStatus", "Time"}
    [] kind = "AirbornePositionV0" -> {"ContainmentRadius", "HorizontalProtectionLimit"}
    [] kind = "AirbornePositionV1" -> {"HorizontalContainmentRadius"}
    [] kind = "AirbornePositionV2" -> {"HorizontalContainmentRadius", "NavigationIntegrityCodeSupplementB"}
    [] kind = "AirborneVelocityAirSpeedNormal" -> {"AirspeedStatus", "HeightDifferenceFromBaroStatus", "IFRCapability", "IntentChange",
         "MagneticHeadingStatus", "NavigationUncertaintyCategory", "Subtype", "VerticalRateSource", "VerticalRateStatus"}
    [] kind = "AirborneVelocityAirSpeedSupersonic" -> {"AirspeedStatus", "HeightDifferenceFromBaroStatus", "IFRCapability", "IntentChange",
         "MagneticHeadingStatus", "NavigationUncertaintyCategory", "Subtype", "VerticalRateSource", "VerticalRateStatus"}
    [] kind = "AirborneVelocityGroundSpeedNormal" -> {"DifferenceAltitudeGNSSBaroStatus", "DirectionEastWest", "DirectionNorthSouth",
         "IFRCapability", "IntentChange", "NavigationUncertaintyCategory", "Subtype", "VelocityEWStatus", "VelocityNSStatus", "VerticalRateSource",
         "VerticalRateStatus"}
    [] kind = "AirborneVelocityGroundSpeedSupersonic" -> {"DifferenceAltitudeGNSSBaroStatus", "DirectionEastWest", "DirectionNorthSouth",
         "IFRCapability", "IntentChange", "NavigationUncertaintyCategory", "Subtype", "VelocityEWStatus", "VelocityNSStatus", "VerticalRateSource",
         "VerticalRateStatus"}
    [] kind = "AircraftOperationalStatusADSB0" -> {"ApproachLandingOperationalCapabilities", "ApproachLandingOperationalCapabilityStatus",
         "EnRouteOperationalCapabilities", "EnRouteOperationalCapabilityStatus", "SurfaceOperationalCapabilities",
         "SurfaceOperationalCapabilityStatus", "TerminalAreaOperationalCapabilities", "TerminalAreaOperationalCapabilityStatus"}
    [] kind = "AircraftOperationalStatusAirborneADSB1" -> {"AirborneCapabilityClass.AirReferencedVelocityReportCapability",
         "AirborneCapabilityClass.CockpitDisplayOfTrafficInformationStatus", "AirborneCapabilityClass.NotACASStatus",
         "AirborneCapabilityClass.TargetChangeReportCapability", "AirborneCapabilityClass.TargetStateReportCapability",
         "HorizontalReferenceDirection", "NICBaro", "NICSupplement", "NavigationalAccuracyCategoryPosition",
         "OperationalMode.ACASResolutionAdvisoryActive", "OperationalMode.IdentSwitchActive", "OperationalMode.ReceivingATCServices", "Subtype",
         "SurveillanceIntegrityLevel", "VersionNumber"}
    [] kind = "AircraftOperationalStatusAirborneADSB2" -> {"AirborneCapabilityClass.ACASOperational",
         "AirborneCapabilityClass.AirReferencedVelocityReportCapability", "AirborneCapabilityClass.ExtendedSquitterIn",
         "AirborneCapabilityClass.TargetChangeReportCapability", "AirborneCapabilityClass.TargetStateReportCapability",
         "AirborneCapabilityClass.UniversalAccessTransceiverCapability", "GeometricVerticalAccuracy", "HorizontalReferenceDirection", "NICBaro",
         "NICSupplementA", "NavigationalAccuracyCategoryPosition", "OperationalMode.ACASResolutionAdvisoryActive",
         "OperationalMode.IdentSwitchActive", "OperationalMode.SingleAntennaFlag", "OperationalMode.SystemDesignAssurance", "SourceIntegrityLevel",
         "SourceIntegrityLevelSupplement", "Subtype", "VersionNumber"}
    [] kind = "AircraftOperationalStatusSurfaceADSB1" -> {"HorizontalReferenceDirection", "LengthAndWidth", "NICSupplement",
         "NavigationalAccuracyCategoryPosition", "OperationalMode.ACASResolutionAdvisoryActive", "OperationalMode.IdentSwitchActive",
         "OperationalMode.ReceivingATCServices", "Subtype", "SurfaceCapabilityClass.B2Low",
         "SurfaceCapabilityClass.CockpitDisplayOfTrafficInformationStatus", "SurfaceCapabilityClass.PositionOffsetApplied",
         "SurveillanceIntegrityLevel", "TrackAngleHeading", "VersionNumber"}
    [] kind = "AircraftOperationalStatusSurfaceADSB2" -> {"HorizontalReferenceDirection", "LengthAndWidth", "NICSupplementA",
         "NavigationalAccuracyCategoryPosition", "OperationalMode.ACASResolutionAdvisoryActive", "OperationalMode.GPSAntenna.GPSAntennaLateral",
         "OperationalMode.GPSAntenna.GPSAntennaLongitudinal", "OperationalMode.IdentSwitchActive", "OperationalMode.SingleAntennaFlag",
         "OperationalMode.SystemDesignAssurance", "SourceIntegrityLevel", "SourceIntegrityLevelSupplement", "Subtype",
         "SurfaceCapabilityClass.B2Low", "SurfaceCapabilityClass.ExtendedSquitterIn", "SurfaceCapabilityClass.NICSupplementC",
         "SurfaceCapabilityClass.NavigationAccuracyCategoryVelocity", "SurfaceCapabilityClass.UniversalAccessTransceiverCapability",
         "TrackAngleHeading", "VersionNumber"}
    [] kind = "AircraftStatusEmergency" -> {"EmergencyPriorityStatus", "Subtype"}
    [] kind = "AircraftStatusNoInformation" -> {"EmergencyPriorityStatus", "Subtype"}
    [] kind = "DataLinkCapabilityReport" -> {"ACASApplicableDocument", "ACASGenerationCapability", "ACASHybridSurveillanceCapability", "ACASStatus",
         "AircraftIdentificationCapability", "CommonUsageGICBCapability", "ContinuationFlag", "DTESubAddressStatuses",
         "DownlinkELMThroughputCapability", "ModeSSpecificServicesCapability", "ModeSSubnetworkVersion", "OverlayCommandCapability",
         "SquitterCapabilitySubfield", "SurveillanceIdentifierCode", "TransponderEnhancedProtocolIndicator", "UplinkELMThroughputCapability"}
    [] kind = "MessageDF0" -> {"AltitudeReportMethod", "CrossLinkCapability", "ReplyInformation", "SensitivityLevel", "VerticalStatus"}
    [] kind = "MessageDF11" -> {"Capability"}
    [] kind = "MessageDF16" -> {"AltitudeReportMethod", "ReplyInformation", "SensitivityLevel", "VerticalStatus"}
    [] kind = "MessageDF17" -> {"Capability"}
    [] kind = "MessageDF18" -> {"ControlField"}
    [] kind = "MessageDF19" -> {"ApplicationField"}
    [] kind = "MessageDF20" -> {"AltitudeReportMethod", "DownlinkRequest", "FlightStatus", "UtilityMessage.IdentifierDesignator"}
    [] kind = "MessageDF21" -> {"DownlinkRequest", "FlightStatus", "UtilityMessage.IdentifierDesignator"}
    [] kind = "MessageDF24" -> {"ControlELM", "NumberOfDSegment"}
    [] kind = "MessageDF4" -> {"AltitudeReportMethod", "DownlinkRequest", "FlightStatus", "UtilityMessage.IdentifierDesignator"}
    [] kind = "MessageDF5" -> {"DownlinkRequest", "FlightStatus", "UtilityMessage.IdentifierDesignator"}
    [] kind = "MeteorologicalHazardReportV0" -> {"Icing", "MicroBurst", "Turbulence", "WakeVortex", "WindShear"}
    [] kind = "MeteorologicalHazardReportV1" -> {"Icing", "MicroBurst", "WakeVortex", "WindShear"}
    [] kind = "MeteorologicalRoutineAirReportV0" -> {"Source", "Turbulence"}
    [] kind = "MeteorologicalRoutineAirReportV1" -> {"TurbulenceFlag"}
    [] kind = "MeteorologicalRoutineAirReportV2" -> {"Source", "TurbulenceFlag"}
    [] kind = "ResolutionAdvisory" -> {"MultipleThreatEncounter", "RATerminatedIndicator", "ThreatTypeIndicator"}
    [] kind = "SelectedVerticalIntention" -> {"StatusOfModeBits", "StatusOfTargetAltitudeSource", "TargetAltitudeSource"}
    [] kind = "Status" -> {"AltitudeTypeSubfield", "TransmissionRateSubfield"}
    [] kind = "SurfacePosition" -> {"CPRFormat", "EncodedLatitude", "EncodedLongitude", "MovementStatus", "Time"}
    [] kind = "SurfacePositionV0" -> {"ContainmentRadius", "HorizontalProtectionLimit"}
    [] kind = "SurfacePositionV1" -> {"HorizontalContainmentRadius"}
    [] kind = "SurfacePositionV2" -> {"HorizontalContainmentRadius"}
    [] kind = "TargetStateAndStatus0" -> {"CapabilityModeCode", "EmergencyPriorityStatus", "HorizontalDataAvailableSourceIndicator",
         "HorizontalModeIndicator", "NICBaro", "NavigationalAccuracyCategoryPosition", "Subtype", "SurveillanceIntegrityLevel",
         "TargetAltitudeCapability", "TargetAltitudeStatus", "TargetAltitudeType", "TargetHeadingTrackAngleStatus", "TargetHeadingTrackIndicator",
         "VerticalDataAvailableSourceIndicator", "VerticalModeIndicator"}
    [] kind = "TargetStateAndStatus1" -> {"BarometricPressureSettingStatus", "NICBaro", "NavigationalAccuracyCategoryPosition",
         "SelectedAltitudeStatus", "SelectedAltitudeType", "SelectedHeadingStatus", "SourceIntegrityLevel", "SourceIntegrityLevelSupplement",
         "StatusMCPFCUBits", "Subtype"}
Kinds == {"ActiveRAOneThreatOrSameSeparation", "AirbornePosition", "AirbornePositionV0", "AirbornePositionV1", "AirbornePositionV2",
  "AirborneVelocityAirSpeedNormal", "AirborneVelocityAirSpeedSupersonic", "AirborneVelocityGroundSpeedNormal", "AirborneVelocityGroundSpeedSupersonic",
  "AircraftOperationalStatusADSB0", "AircraftOperationalStatusAirborneADSB1", "AircraftOperationalStatusAirborneADSB2",
  "AircraftOperationalStatusSurfaceADSB1", "AircraftOperationalStatusSurfaceADSB2", "AircraftStatusEmergency", "AircraftStatusNoInformation",
  "DataLinkCapabilityReport", "MessageDF0", "MessageDF11", "MessageDF16", "MessageDF17", "MessageDF18", "MessageDF19", "MessageDF20", "MessageDF21",
  "MessageDF24", "MessageDF4", "MessageDF5", "MeteorologicalHazardReportV0", "MeteorologicalHazardReportV1", "MeteorologicalRoutineAirReportV0",
  "MeteorologicalRoutineAirReportV1", "MeteorologicalRoutineAirReportV2", "ResolutionAdvisory", "SelectedVerticalIntention", "Status",
  "SurfacePosition", "SurfacePositionV0", "SurfacePositionV1", "SurfacePositionV2", "TargetStateAndStatus0", "TargetStateAndStatus1"}

\* A set of categories, a range, a bearing have a text too
Others == ({"category"} \X {"A", "B", "C", "D"}) \union ({"ResolutionAdvisory"} \X {"ThreatIdentityRange", "ThreatIdentityBearing", "ThreatIdentityAltitude.AltitudeStatus"})
Fields == Others \union UNION {{<<k, p>> : p \in CodedFields(k)} : k \in Kinds}

SomeFrames == {<<>>, <<1, 2>>, <<171, 69, 88, 33, 3, 28>>, <<0, 0, 0, 0, 0, 0>>, <<32, 3, 16, 4, 5, 6>>, <<171, 69, 88, 33, 3, 28, 68, 104, 73, 183, 37, 53, 1>>, <<60, 101, 64, 207, 229, 150, 1, 2, 3, 4, 5, 6, 7>>, <<1, 2, 3, 4, 5, 6, 7>>}
SomeMessages == {<<171, 19, 28, 68, 104, 73>>, <<195, 130, 214, 144, 200, 172>>, <<0, 0, 0, 0, 0, 0>>, <<0, 16, 0, 0, 0, 0>>, <<12, 49, 4, 32, 128, 73>>, <<163, 40, 4, 16, 64, 80>>, <<1, 2, 3>>}

VARIABLES walk, at, value
vars == <<walk, at, value>>

Readers == {"air", "air0", "airv0", "airv1", "airv2", "surf", "surfv0", "surfv1", "surfv2", "none", "ident", "velocity", "status", "target", "opstatus"}
Formats == {0, 4, 5, 11, 16, 17, 18, 19, 20, 21, 24}

Init == \/ walk = "code" /\ at \in Fields /\ value = 0
        \/ walk = "frame" /\ at \in Frames /\ value = 0
        \/ walk = "message" /\ at \in Messages \X Versions3 \X {0, 1} \X {0, 1} /\ value = 0
        \/ walk = "radius" /\ at \in {"hpl", "radius"} /\ value = 0
Last == CASE walk = "radius" -> 16 [] walk = "code" -> Codes [] OTHER -> 255
Next == value < Last /\ value' = value + 1 /\ UNCHANGED <<walk, at>>
Spec == Init /\ [][Next]_vars

\* A code has a meaning for 0 or 1 at least, and the text of a value is never the one of another
Meant == walk = "code" => Meaning(at) # <<>> /\ Meaning(at) # [n \in {} |-> 0] /\ CodeText(at, value) # ""
Distinct == walk = "code" => \A n \in {k \in 0..31 : k < value} : CodeText(at, n) # CodeText(at, value)

Received == <<value>> \o at
\* One parser, and one only, accepts a frame
OneParser == walk = "frame" =>
  LET who == {f \in Formats : ParseFrame(f, Received) # ERR}
  IN IF Accepted(Received) THEN who = {Canonical(DF(Received))} ELSE who = {}

\* The readers of a message agree with the reader of all of them, and among themselves
Message == <<value>> \o at[1]
OneContent == walk = "message" =>
  LET v == at[2]
      all == IF Len(Message) # 7 THEN ESERR ELSE Adsb(v, Message)
      R(name) == ReadOne(name, v, at[3], at[4], Message)
      who == {n \in Readers : R(n) # ERR}
  IN /\ \A n \in who : TC(Message) \in ReaderTypes(n)
     /\ (all # ESERR => who # {})
     /\ \A n \in who : Len(Message) = 7 /\ n # "none" /\ ~NoPosition(Message) /\ R(n)[2] = all[1] => SubSeq(R(n), 3, Len(General(all)) + 2) = General(all)
     /\ \A n \in who : TC(Message) \notin {0} /\ ReaderVersion(n, v) = v => R(n)[2] = all[1]
     /\ (Len(Message) = 7 /\ TC(Message) \in AirborneTypes /\ who # {} => {"airv0", "airv1", "airv2"} \subseteq who)
     /\ (Len(Message) = 7 /\ TC(Message) \in 5..8 => {"surfv0", "surfv1", "surfv2"} \subseteq who)

\* The classes of the radii follow each other, without holes
Classes == walk = "radius" =>
  LET b == Bounds(at, value)
      c == Bounds(at, value + 1)
  IN /\ (b[1] # None /\ b[2] # None => b[1] < b[2])
     /\ (at = "radius" /\ b[2] # None => c[1] = b[2])
=============================================================================
