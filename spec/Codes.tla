--------------------------------- MODULE Codes --------------------------------
(* The blocks of the API that a program may use alone. Each field of a message that is a code has a type with a text:  *)
(* Meaning(f) is the table of the texts of the values that have a meaning, for the field f = <<message, field>>. The   *)
(* value that has none is told to be unknown. The readers of one message accept the data of this message only.       *)
EXTENDS Labels

Velocities == {"AirborneVelocityGroundSpeedNormal", "AirborneVelocityGroundSpeedSupersonic", "AirborneVelocityAirSpeedNormal", "AirborneVelocityAirSpeedSupersonic"}
Operationals == {"AircraftOperationalStatusADSB0", "AircraftOperationalStatusAirborneADSB1", "AircraftOperationalStatusAirborneADSB2",
                 "AircraftOperationalStatusSurfaceADSB1", "AircraftOperationalStatusSurfaceADSB2"}
Both == "Probability of exceeding the Horizontal Containment Radius reported in the NIC Subfield without an indication: "
BothVertical == " Probability of exceeding the Vertical Integrity Containment Region (VPL) without an indication: "

Meaning(f) ==
  CASE f \in {<<"AircraftOperationalStatusAirborneADSB2", "AirborneCapabilityClass.ExtendedSquitterIn">>, <<"AircraftOperationalStatusSurfaceADSB2",
         "SurfaceCapabilityClass.ExtendedSquitterIn">>} -> 1090ESIN1090MHzExtendedSquitter
    [] f \in {<<"DataLinkCapabilityReport", "ACASApplicableDocument">>} -> ACASApplicableDocument
    [] f \in {<<"DataLinkCapabilityReport", "ACASGenerationCapability">>} -> ACASGenerationCapability
    [] f \in {<<"DataLinkCapabilityReport", "ACASHybridSurveillanceCapability">>} -> ACASHybridSurveillanceCapability
    [] f \in {<<"AircraftOperationalStatusAirborneADSB2", "AirborneCapabilityClass.ACASOperational">>} -> ACASOperational
    [] f \in {<<"AircraftOperationalStatusAirborneADSB1", "OperationalMode.ACASResolutionAdvisoryActive">>, <<"AircraftOperationalStatusSurfaceADSB1",
         "OperationalMode.ACASResolutionAdvisoryActive">>} -> ACASResolutionAdvisoryActive
    [] f \in {<<"AircraftOperationalStatusAirborneADSB2", "OperationalMode.ACASResolutionAdvisoryActive">>, <<"AircraftOperationalStatusSurfaceADSB2",
         "OperationalMode.ACASResolutionAdvisoryActive">>} -> ACASResolutionAdvisoryActive2
    [] f \in {<<"DataLinkCapabilityReport", "ACASStatus">>} -> ACASStatus
    [] f \in {<<"AircraftOperationalStatusAirborneADSB1", "AirborneCapabilityClass.AirReferencedVelocityReportCapability">>,
         <<"AircraftOperationalStatusAirborneADSB2", "AirborneCapabilityClass.AirReferencedVelocityReportCapability">>} ->
         AirReferencedVelocityReportCapability
    [] f \in {<<"AirborneVelocityAirSpeedNormal", "AirspeedStatus">>, <<"AirborneVelocityAirSpeedNormal", "HeightDifferenceFromBaroStatus">>,
         <<"AirborneVelocityAirSpeedNormal", "VerticalRateStatus">>, <<"AirborneVelocityAirSpeedSupersonic", "AirspeedStatus">>,
         <<"AirborneVelocityAirSpeedSupersonic", "HeightDifferenceFromBaroStatus">>, <<"AirborneVelocityAirSpeedSupersonic", "VerticalRateStatus">>,
         <<"AirborneVelocityGroundSpeedNormal", "DifferenceAltitudeGNSSBaroStatus">>, <<"AirborneVelocityGroundSpeedNormal", "VelocityEWStatus">>,
         <<"AirborneVelocityGroundSpeedNormal", "VelocityNSStatus">>, <<"AirborneVelocityGroundSpeedNormal", "VerticalRateStatus">>,
         <<"AirborneVelocityGroundSpeedSupersonic", "DifferenceAltitudeGNSSBaroStatus">>, <<"AirborneVelocityGroundSpeedSupersonic",
         "VelocityEWStatus">>, <<"AirborneVelocityGroundSpeedSupersonic", "VelocityNSStatus">>, <<"AirborneVelocityGroundSpeedSupersonic",
         "VerticalRateStatus">>} -> AirSpeedStatus
    [] f \in {<<"DataLinkCapabilityReport", "AircraftIdentificationCapability">>} -> AircraftIdentificationCapability
    [] f \in {<<"AircraftOperationalStatusSurfaceADSB1", "LengthAndWidth">>, <<"AircraftOperationalStatusSurfaceADSB2", "LengthAndWidth">>} ->
         AircraftLengthAndWidth
    [] f \in {<<"AirbornePosition", "AltitudeReportMethod">>} -> AltitudeReportMethod
    [] f \in {<<"AirbornePosition", "AltitudeSource">>} -> AltitudeSource
    [] f \in {<<"Status", "AltitudeTypeSubfield">>} -> AltitudeTypeSubfield
    [] f \in {<<"MessageDF19", "ApplicationField">>} -> ApplicationField
    [] f \in {<<"AircraftOperationalStatusSurfaceADSB1", "SurfaceCapabilityClass.B2Low">>, <<"AircraftOperationalStatusSurfaceADSB2",
         "SurfaceCapabilityClass.B2Low">>} -> B2Low
    [] f \in {<<"MessageDF11", "Capability">>, <<"MessageDF17", "Capability">>} -> Capability
    [] f \in {<<"TargetStateAndStatus0", "CapabilityModeCode">>} -> CapabilityModeCodes
    [] f \in {<<"AircraftOperationalStatusAirborneADSB1", "AirborneCapabilityClass.CockpitDisplayOfTrafficInformationStatus">>,
         <<"AircraftOperationalStatusSurfaceADSB1", "SurfaceCapabilityClass.CockpitDisplayOfTrafficInformationStatus">>} ->
         CockpitDisplayOfTrafficInformationStat
    [] f \in {<<"DataLinkCapabilityReport", "CommonUsageGICBCapability">>} -> CommonUsageGICBCapability
    [] f \in {<<"AirbornePosition", "CPRFormat">>, <<"SurfacePosition", "CPRFormat">>} -> CompactPositionReportingFormat
    [] f \in {<<"AirbornePositionV0", "ContainmentRadius">>} -> ContainmentRadius
    [] f \in {<<"SurfacePositionV0", "ContainmentRadius">>} -> ContainmentRadius2
    [] f \in {<<"DataLinkCapabilityReport", "ContinuationFlag">>} -> ContinuationFlag
    [] f \in {<<"MessageDF24", "ControlELM">>} -> ControlELM
    [] f \in {<<"MessageDF18", "ControlField">>} -> ControlField
    [] f \in {<<"MessageDF0", "CrossLinkCapability">>} -> CrossLinkCapability
    [] f \in {<<"AirborneVelocityGroundSpeedNormal", "DirectionEastWest">>, <<"AirborneVelocityGroundSpeedSupersonic", "DirectionEastWest">>} ->
         DirectionEW
    [] f \in {<<"AirborneVelocityGroundSpeedNormal", "DirectionNorthSouth">>, <<"AirborneVelocityGroundSpeedSupersonic", "DirectionNorthSouth">>} ->
         DirectionNS
    [] f \in {<<"DataLinkCapabilityReport", "DownlinkELMThroughputCapability">>} -> DownlinkELMThroughputCapability
    [] f \in {<<"MessageDF20", "DownlinkRequest">>, <<"MessageDF21", "DownlinkRequest">>, <<"MessageDF4", "DownlinkRequest">>, <<"MessageDF5",
         "DownlinkRequest">>} -> DownlinkRequest
    [] f \in {<<"AircraftStatusEmergency", "EmergencyPriorityStatus">>, <<"AircraftStatusNoInformation", "EmergencyPriorityStatus">>,
         <<"TargetStateAndStatus0", "EmergencyPriorityStatus">>} -> EmergenyState
    [] f \in {<<"AircraftOperationalStatusADSB0", "ApproachLandingOperationalCapabilities">>, <<"AircraftOperationalStatusADSB0",
         "ApproachLandingOperationalCapabilityStatus">>, <<"AircraftOperationalStatusADSB0", "EnRouteOperationalCapabilities">>,
         <<"AircraftOperationalStatusADSB0", "EnRouteOperationalCapabilityStatus">>, <<"AircraftOperationalStatusADSB0",
         "SurfaceOperationalCapabilities">>, <<"AircraftOperationalStatusADSB0", "SurfaceOperationalCapabilityStatus">>,
         <<"AircraftOperationalStatusADSB0", "TerminalAreaOperationalCapabilities">>, <<"AircraftOperationalStatusADSB0",
         "TerminalAreaOperationalCapabilityStatus">>} -> EnRouteOperationalCapabilities
    [] f \in {<<"MessageDF20", "FlightStatus">>, <<"MessageDF21", "FlightStatus">>, <<"MessageDF4", "FlightStatus">>, <<"MessageDF5",
         "FlightStatus">>} -> FlightStatus
    [] f \in {<<"MessageDF0", "AltitudeReportMethod">>, <<"MessageDF16", "AltitudeReportMethod">>, <<"MessageDF20", "AltitudeReportMethod">>,
         <<"MessageDF4", "AltitudeReportMethod">>} -> FrameAltitudeMethod
    [] f \in {<<"AircraftOperationalStatusSurfaceADSB2", "OperationalMode.GPSAntenna.GPSAntennaLateral">>} -> [n \in 0..7 |-> SubSeq(GPSAntenna[n], 32, Len(GPSAntenna[n]))]
    [] f \in {<<"AircraftOperationalStatusAirborneADSB2", "GeometricVerticalAccuracy">>} -> GeometricVerticalAccuracy
    [] f \in {<<"SurfacePositionV1", "HorizontalContainmentRadius">>} -> HorizontalContainmentLimit
    [] f \in {<<"SurfacePositionV2", "HorizontalContainmentRadius">>} -> HorizontalContainmentLimit2
    [] f \in {<<"AirbornePositionV1", "HorizontalContainmentRadius">>} -> HorizontalContainmentRadius
    [] f \in {<<"AirbornePositionV2", "HorizontalContainmentRadius">>} -> HorizontalContainmentRadius2
    [] f \in {<<"TargetStateAndStatus0", "HorizontalDataAvailableSourceIndicator">>} -> HorizontalDataAvailableSourceIndicator
    [] f \in {<<"AirbornePositionV0", "HorizontalProtectionLimit">>} -> HorizontalProtectionLimit
    [] f \in {<<"SurfacePositionV0", "HorizontalProtectionLimit">>} -> HorizontalProtectionLimit2
    [] f \in {<<"AircraftOperationalStatusAirborneADSB1", "HorizontalReferenceDirection">>, <<"AircraftOperationalStatusAirborneADSB2",
         "HorizontalReferenceDirection">>, <<"AircraftOperationalStatusSurfaceADSB1", "HorizontalReferenceDirection">>,
         <<"AircraftOperationalStatusSurfaceADSB2", "HorizontalReferenceDirection">>} -> HorizontalReferenceDirection
    [] f \in {<<"AirborneVelocityAirSpeedNormal", "IFRCapability">>, <<"AirborneVelocityAirSpeedSupersonic", "IFRCapability">>,
         <<"AirborneVelocityGroundSpeedNormal", "IFRCapability">>, <<"AirborneVelocityGroundSpeedSupersonic", "IFRCapability">>} -> IFRCapability
    [] f \in {<<"AircraftOperationalStatusAirborneADSB1", "OperationalMode.IdentSwitchActive">>, <<"AircraftOperationalStatusAirborneADSB2",
         "OperationalMode.IdentSwitchActive">>, <<"AircraftOperationalStatusSurfaceADSB1", "OperationalMode.IdentSwitchActive">>,
         <<"AircraftOperationalStatusSurfaceADSB2", "OperationalMode.IdentSwitchActive">>} -> IdentSwitchActive
    [] f \in {<<"AirborneVelocityAirSpeedNormal", "IntentChange">>, <<"AirborneVelocityAirSpeedSupersonic", "IntentChange">>,
         <<"AirborneVelocityGroundSpeedNormal", "IntentChange">>, <<"AirborneVelocityGroundSpeedSupersonic", "IntentChange">>} -> IntentChange
    [] f \in {<<"AircraftOperationalStatusSurfaceADSB2", "OperationalMode.GPSAntenna.GPSAntennaLongitudinal">>} -> LongitudinalAxisGPSAntenna
    [] f \in {<<"AirborneVelocityAirSpeedNormal", "MagneticHeadingStatus">>, <<"AirborneVelocityAirSpeedSupersonic", "MagneticHeadingStatus">>} ->
         MagneticHeadingStatus
    [] f \in {<<"DataLinkCapabilityReport", "ModeSSpecificServicesCapability">>} -> ModeSSpecificServicesCapability
    [] f \in {<<"DataLinkCapabilityReport", "ModeSSubnetworkVersion">>} -> ModeSSubnetworkVersion
    [] f \in {<<"AircraftOperationalStatusAirborneADSB1", "NICBaro">>, <<"AircraftOperationalStatusAirborneADSB2", "NICBaro">>,
         <<"TargetStateAndStatus0", "NICBaro">>, <<"TargetStateAndStatus1", "NICBaro">>} -> NICBaro
    [] f \in {<<"AirborneVelocityAirSpeedNormal", "NavigationUncertaintyCategory">>, <<"AirborneVelocityAirSpeedSupersonic",
         "NavigationUncertaintyCategory">>, <<"AirborneVelocityGroundSpeedNormal", "NavigationUncertaintyCategory">>,
         <<"AirborneVelocityGroundSpeedSupersonic", "NavigationUncertaintyCategory">>} -> NavigationUncertaintyCategory
    [] f \in {<<"AircraftOperationalStatusAirborneADSB1", "NavigationalAccuracyCategoryPosition">>, <<"AircraftOperationalStatusSurfaceADSB1",
         "NavigationalAccuracyCategoryPosition">>, <<"TargetStateAndStatus0", "NavigationalAccuracyCategoryPosition">>} ->
         NavigationalAccuracyCategoryPosition
    [] f \in {<<"AircraftOperationalStatusAirborneADSB2", "NavigationalAccuracyCategoryPosition">>, <<"AircraftOperationalStatusSurfaceADSB2",
         "NavigationalAccuracyCategoryPosition">>, <<"TargetStateAndStatus1", "NavigationalAccuracyCategoryPosition">>} ->
         NavigationalAccuracyCategoryPosition2
    [] f \in {<<"AircraftOperationalStatusAirborneADSB1", "AirborneCapabilityClass.NotACASStatus">>} -> NotACASStatus
    [] f \in {<<"DataLinkCapabilityReport", "OverlayCommandCapability">>} -> OverlayCommandCapability
    [] f \in {<<"AircraftOperationalStatusSurfaceADSB1", "SurfaceCapabilityClass.PositionOffsetApplied">>} -> PositionOffsetApplied
    [] f \in {<<"AircraftOperationalStatusAirborneADSB1", "OperationalMode.ReceivingATCServices">>, <<"AircraftOperationalStatusSurfaceADSB1",
         "OperationalMode.ReceivingATCServices">>} -> ReceivingATCServices
    [] f \in {<<"MessageDF0", "ReplyInformation">>, <<"MessageDF16", "ReplyInformation">>} -> ReplyInformation
    [] f \in {<<"TargetStateAndStatus1", "BarometricPressureSettingStatus">>, <<"TargetStateAndStatus1", "SelectedAltitudeStatus">>} ->
         AirSpeedStatus
    [] f \in {<<"TargetStateAndStatus1", "SelectedAltitudeType">>} -> SelectedAltitudeType
    [] f \in {<<"TargetStateAndStatus1", "SelectedHeadingStatus">>} -> SelectedHeadingStatus
    [] f \in {<<"MessageDF0", "SensitivityLevel">>, <<"MessageDF16", "SensitivityLevel">>} -> SensitivityLevel
    [] f \in {<<"AirbornePosition", "SingleAntennaFlag">>} -> SingleAntennaFlag
    [] f \in {<<"AircraftOperationalStatusAirborneADSB2", "OperationalMode.SingleAntennaFlag">>, <<"AircraftOperationalStatusSurfaceADSB2",
         "OperationalMode.SingleAntennaFlag">>} -> SingleAntennaFlag2
    [] f \in {<<"MeteorologicalRoutineAirReportV0", "Source">>, <<"MeteorologicalRoutineAirReportV2", "Source">>} -> Source
    [] f \in {<<"AircraftOperationalStatusAirborneADSB2", "SourceIntegrityLevel">>, <<"AircraftOperationalStatusSurfaceADSB2",
         "SourceIntegrityLevel">>, <<"TargetStateAndStatus1", "SourceIntegrityLevel">>} -> SourceIntegrityReaderLevel
    [] f \in {<<"AircraftOperationalStatusAirborneADSB2", "SourceIntegrityLevelSupplement">>, <<"AircraftOperationalStatusSurfaceADSB2",
         "SourceIntegrityLevelSupplement">>, <<"TargetStateAndStatus1", "SourceIntegrityLevelSupplement">>} -> SourceIntegrityReaderLevelSupplement
    [] f \in {<<"DataLinkCapabilityReport", "SquitterCapabilitySubfield">>} -> SquitterCapabilitySubfield
    [] f \in {<<"TargetStateAndStatus1", "StatusMCPFCUBits">>} -> StatusOfMCPFPUModeBits
    [] f \in {<<"SelectedVerticalIntention", "StatusOfModeBits">>} -> StatusOfModeBits
    [] f \in {<<"SelectedVerticalIntention", "StatusOfTargetAltitudeSource">>} -> StatusOfTargetAltitudeSource
    [] f \in {<<"DataLinkCapabilityReport", "SurveillanceIdentifierCode">>} -> SurveillanceIdentifierCode
    [] f \in {<<"AirbornePosition", "SurveillanceStatus">>} -> SurveillanceStatus
    [] f \in {<<"AircraftOperationalStatusAirborneADSB2", "OperationalMode.SystemDesignAssurance">>, <<"AircraftOperationalStatusSurfaceADSB2",
         "OperationalMode.SystemDesignAssurance">>} -> SystemDesignAssurance
    [] f \in {<<"TargetStateAndStatus0", "TargetAltitudeCapability">>} -> TargetAltitudeCapability
    [] f \in {<<"SelectedVerticalIntention", "TargetAltitudeSource">>} -> TargetAltitudeSource
    [] f \in {<<"TargetStateAndStatus0", "TargetAltitudeStatus">>, <<"TargetStateAndStatus0", "TargetHeadingTrackAngleStatus">>} ->
         AirSpeedStatus
    [] f \in {<<"TargetStateAndStatus0", "TargetAltitudeType">>} -> TargetAltitudeType
    [] f \in {<<"AircraftOperationalStatusAirborneADSB1", "AirborneCapabilityClass.TargetChangeReportCapability">>,
         <<"AircraftOperationalStatusAirborneADSB2", "AirborneCapabilityClass.TargetChangeReportCapability">>} -> TargetChangeReportCapability
    [] f \in {<<"TargetStateAndStatus0", "TargetHeadingTrackIndicator">>} -> TargetHeadingTrackIndicator
    [] f \in {<<"AircraftOperationalStatusAirborneADSB1", "AirborneCapabilityClass.TargetStateReportCapability">>,
         <<"AircraftOperationalStatusAirborneADSB2", "AirborneCapabilityClass.TargetStateReportCapability">>} -> TargetStateReportCapability
    [] f \in {<<"AirbornePosition", "Time">>, <<"SurfacePosition", "Time">>} -> Time
    [] f \in {<<"AircraftOperationalStatusSurfaceADSB1", "TrackAngleHeading">>, <<"AircraftOperationalStatusSurfaceADSB2", "TrackAngleHeading">>} ->
         TrackAngleHeading
    [] f \in {<<"Status", "TransmissionRateSubfield">>} -> TransmissionRateSubfield
    [] f \in {<<"DataLinkCapabilityReport", "TransponderEnhancedProtocolIndicator">>} -> TransponderEnhancedProtocolIndicator
    [] f \in {<<"MeteorologicalHazardReportV0", "Icing">>, <<"MeteorologicalHazardReportV0", "MicroBurst">>, <<"MeteorologicalHazardReportV0",
         "Turbulence">>, <<"MeteorologicalHazardReportV0", "WakeVortex">>, <<"MeteorologicalHazardReportV0", "WindShear">>,
         <<"MeteorologicalHazardReportV1", "Icing">>, <<"MeteorologicalHazardReportV1", "MicroBurst">>, <<"MeteorologicalHazardReportV1",
         "WakeVortex">>, <<"MeteorologicalHazardReportV1", "WindShear">>, <<"MeteorologicalRoutineAirReportV0", "Turbulence">>} -> Turbulence
    [] f \in {<<"MeteorologicalRoutineAirReportV1", "TurbulenceFlag">>, <<"MeteorologicalRoutineAirReportV2", "TurbulenceFlag">>} -> TurbulenceFlag
    [] f \in {<<"AircraftOperationalStatusAirborneADSB2", "AirborneCapabilityClass.UniversalAccessTransceiverCapability">>,
         <<"AircraftOperationalStatusSurfaceADSB2", "SurfaceCapabilityClass.UniversalAccessTransceiverCapability">>} ->
         UATINUniversalAccessTransceiver
    [] f \in {<<"DataLinkCapabilityReport", "UplinkELMThroughputCapability">>} -> UplinkELMThroughputCapability
    [] f \in {<<"TargetStateAndStatus0", "VerticalDataAvailableSourceIndicator">>} -> VerticalDataAvailableSourceIndicator
    [] f \in {<<"TargetStateAndStatus0", "HorizontalModeIndicator">>, <<"TargetStateAndStatus0", "VerticalModeIndicator">>} -> VerticalModeIndicator
    [] f \in {<<"AirborneVelocityAirSpeedNormal", "VerticalRateSource">>, <<"AirborneVelocityAirSpeedSupersonic", "VerticalRateSource">>,
         <<"AirborneVelocityGroundSpeedNormal", "VerticalRateSource">>, <<"AirborneVelocityGroundSpeedSupersonic", "VerticalRateSource">>} ->
         VerticalRateSource
    [] f \in {<<"MessageDF0", "VerticalStatus">>, <<"MessageDF16", "VerticalStatus">>} -> VerticalStatus
    [] f = <<"ActiveRAOneThreatOrSameSeparation", "PreventiveCorrective">> -> 0 :> "Preventive" @@ 1 :> "Corrective"
    [] f = <<"ActiveRAOneThreatOrSameSeparation", "Sense">> -> 0 :> "Upward" @@ 1 :> "Downward"
    [] f = <<"ActiveRAOneThreatOrSameSeparation", "VerticalSpeedLimitOrPositive">> -> 0 :> "Vertical Speed Limit" @@ 1 :> "Positive"
    [] f = <<"ResolutionAdvisory", "MultipleThreatEncounter">> ->
         0 :> "One or no threat is currently being processed by the ACAS" @@ 1 :> "Two or more threats are currently being processed by the ACAS"
    [] f = <<"ResolutionAdvisory", "RATerminatedIndicator">> ->
         0 :> "ACAS is currently generating the RA" @@ 1 :> "the RA indicated has been terminated"
    [] f = <<"ResolutionAdvisory", "ThreatTypeIndicator">> ->
         0 :> "0 - No identity data in TID" @@ 1 :> "1 - TID contains a Mode S transponder address"
         @@ 2 :> "2 - TID contains altitude, range and bearing data" @@ 3 :> "3 - Not assigned"
    [] f = <<"ResolutionAdvisory", "ThreatIdentityRange">> -> [n \in 0..127 |-> RangeText(n)]
    [] f = <<"ResolutionAdvisory", "ThreatIdentityBearing">> -> [n \in 0..63 |-> BearingText(n)]
    [] f = <<"ResolutionAdvisory", "ThreatIdentityAltitude.AltitudeStatus">> -> 0 :> "Not Available or Invalid" @@ 1 :> "Valid"
    [] f = <<"category", "A">> -> Category(4) [] f = <<"category", "B">> -> Category(3) [] f = <<"category", "C">> -> Category(2) [] f = <<"category", "D">> -> Category(1)
    [] f[2] = "Subtype" /\ f[1] \in Velocities ->
         1 :> "1 - GroundSpeed / Normal" @@ 2 :> "2 - GroundSpeed / Supersonic" @@ 3 :> "3 - Airspeed,Heading / Normal" @@ 4 :> "4 - Airspeed,Heading / Supersonic"
    [] f[2] = "Subtype" /\ f[1] \in Operationals -> 0 :> "0 - Airborne Status Message" @@ 1 :> "1 - Surface Status Message"
    [] f[2] = "Subtype" /\ f[1] \in {"AircraftStatusEmergency", "AircraftStatusNoInformation"} ->
         0 :> "0 - no information" @@ 1 :> "1 - emergency/priority status" @@ 2 :> "2 - TCAS/ACAS RA Broadcast" @@ [n \in 3..7 |-> ToString(n) \o " - reserved"]
    [] f[2] = "Subtype" /\ f[1] \in {"TargetStateAndStatus0", "TargetStateAndStatus1"} ->
         0 :> "0 - Subtype 0" @@ 1 :> "1 - Subtype 1" @@ 2 :> "2 - reserved" @@ 3 :> "3 - reserved"
    [] f[2] = "VersionNumber" ->
         [n \in 0..255 |-> CASE n = 0 -> "0 - ADSB V0: Conformant to Doc 9871, Appendix A" [] n = 1 -> "1 - ADSB V1: Conformant to Doc 9871, Appendix B"
                             [] n = 2 -> "2 - ADSB V2: Conformant to Doc 9871, Appendix C" [] OTHER -> ToString(n)]
    [] f[2] \in {"NICSupplement", "NICSupplementA", "NavigationIntegrityCodeSupplementB", "SurfaceCapabilityClass.NICSupplementC"} -> 0 :> "0" @@ 1 :> "1"
    [] f[2] \in {"SurfaceCapabilityClass.NavigationAccuracyCategoryVelocity", "NumberOfDSegment", "EncodedLatitude", "EncodedLongitude"} -> [n \in 0..255 |-> ToString(n)]
    [] f[2] = "DTESubAddressStatuses" -> [n \in 0..255 |-> Statuses(n)]
    [] f[2] = "UtilityMessage.IdentifierDesignator" ->
         0 :> "0 - No Information" @@ 1 :> "1 - Designator Comm-B" @@ 2 :> "2 - Designator Comm-C" @@ 3 :> "3 - Designator Comm-D"
    [] f[2] = "MovementStatus" -> [n \in 0..127 |-> MovementText(n)]
    [] f[2] = "SurveillanceIntegrityLevel" ->
         [n \in 0..3 |-> Both \o ProbabilityOfExceedingTheHorizontalCon[n] \o BothVertical \o ProbabilityOfExceedingTheVerticalInteg[n]]
    [] OTHER -> <<>>

CodeText(f, n) == LET t == Meaning(f) IN IF n \in DOMAIN t THEN t[n] ELSE ToString(n) \o " - Unknown code"

\* The limits, in decimetres, of the radii of the surface positions of ADS-B version 0 (Doc 9871, table A-2-6), by type
\* code. The lower one belongs to the class, the higher one does not; -1 (that is -10 decimetres) when there is none.
None == -10
Bounds(what, n) ==
  CASE what = "hpl" -> (CASE n = 5 -> <<None, 75>> [] n = 6 -> <<None, 250>> [] n = 7 -> <<None, 1852>> [] n = 8 -> <<1852, None>> [] OTHER -> <<None, None>>)
    [] OTHER -> (CASE n = 5 -> <<None, 30>> [] n = 6 -> <<30, 100>> [] n = 7 -> <<100, 926>> [] n = 8 -> <<926, None>> [] OTHER -> <<None, None>>)

RegisterName(r) ==
  CASE r = "00" -> "No message waiting for transmission" [] r = "05" -> "Extended squitter airborne position"
    [] r = "06" -> "Extended squitter surface position" [] r = "07" -> "Extended squitter status"
    [] r = "08" -> "Extended squitter aircraft identification and category" [] r = "09" -> "Extended squitter airborne velocity"
    [] r = "10" -> "Data link capability report" [] r = "17" -> "Common usage GICB capability report" [] r = "20" -> "Aircraft identification"
    [] r = "30" -> "ACAS active resolution advisory" [] r = "40" -> "Selected vertical intention" [] r = "44" -> "Meteorological routine air report"
    [] r = "45" -> "Meteorological hazard report" [] r = "50" -> "Track and turn report" [] r = "60" -> "Heading and speed report"
    [] r = "61" -> "Extended squitter emergency/priority status" [] r = "62" -> "Target state and status information"
    [] r = "65" -> "Extended squitter aircraft operational status"
RegisterText(r) ==
  LET id == "BDS " \o SubSeq(r, 1, 1) \o "," \o SubSeq(r, 2, 2)
  IN <<id, RegisterName(r), id \o " - " \o RegisterName(r)>>

VersionText(n) == IF n <= 2 THEN "ADSB V" \o ToString(n) ELSE "there is no ADSB ReaderLevel associated with value " \o ToString(n)

\* The number made of octets (2 to 4) or of bits (8 or 16), as its two halves of 16 bits
RECURSIVE NumberOf(_, _)
NumberOf(x, base) == IF x = <<>> THEN 0 ELSE base * NumberOf(SubSeq(x, 1, Len(x)-1), base) + x[Len(x)]
Packed(how, x) ==
  IF how \in {"8", "16"} THEN <<0, NumberOf(x, 2)>>
  ELSE <<NumberOf(SubSeq(x, 1, Len(x)-2), 256), NumberOf(SubSeq(x, Len(x)-1, Len(x)), 256)>>

GillhamFeet(x) ==
  LET g == Gillham(x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12])
  IN IF g = Bad THEN ERR ELSE <<"FT", g>>

\* The parser of one format, given octets that are cut as a frame
ParseFrame(format, m) ==
  IF Canonical(DF(m)) = format /\ Accepted(m) THEN Header(m) \o <<format, Name(format)>> ELSE ERR

\* The reader of one ADS-B message: the version that it reads, and the type codes
ReaderVersion(name, v) == CASE name \in {"airv0", "surfv0"} -> 0 [] name \in {"airv1", "surfv1"} -> 1 [] name \in {"airv2", "surfv2"} -> 2 [] OTHER -> v
ReaderTypes(name) ==
  CASE name = "air" -> AirborneTypes \union {0} [] name \in {"air0", "none"} -> {0} [] name \in {"airv0", "airv1", "airv2"} -> AirborneTypes
    [] name \in {"surf", "surfv0", "surfv1", "surfv2"} -> 5..8 [] name = "ident" -> 1..4 [] name = "velocity" -> {19}
    [] name = "status" -> {28} [] name = "target" -> {29} [] OTHER -> {31}

\* The content of a position is the same in all the versions
General(c) ==
  IF c[1] \in {"AirbornePositionType0", "AirbornePositionV0", "AirbornePositionV1", "AirbornePositionV2"} THEN <<"AirbornePosition">> \o Tail(c)
  ELSE IF c[1] \in {"SurfacePositionV0", "SurfacePositionV1", "SurfacePositionV2"} THEN <<"SurfacePosition">> \o Tail(c)
  ELSE c

\* <<version, kind, content, integrity of a position>>
ReadOne(name, v, a, s, m) ==
  LET w == ReaderVersion(name, v)
      typed == Len(m) = 7 /\ TC(m) \in ReaderTypes(name)
  IN IF ~typed THEN ERR
     ELSE IF TC(m) = 0
     THEN (IF ~PosLegal(m) THEN ERR
           ELSE IF name = "none" THEN <<v, "NoPositionInformation", "NoPositionInformation", 0, PosAltitude(m)[2], 0, 1>>
           ELSE <<v, "AirbornePositionType0">> \o General(AirbornePosition(m, "AirbornePositionType0", 0, 0)) \o <<0>>)
     ELSE LET c == Adsb(w, m)
          IN IF c = ESERR THEN ERR
             ELSE <<AdsbVersion(w, m)[2], c[1]>> \o General(c) \o (IF TC(m) \in AirborneTypes \union (5..8) THEN Tail(Integrity(w, a, s, m)) ELSE <<>>)
===============================================================================
