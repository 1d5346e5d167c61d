package main

// Projection of the values returned by the library on flat tuples of integers and strings. The projection
// reads the exported fields only, by name, and makes no decision: what is a right value is stated by the
// TLA+ specification (see ../spec).

import (
	"math"
	"reflect"
	"strings"
)

// layout gives, for each kind of message, the exported fields that are observed, in the order used by the
// specification.
var layout = map[string]string{
	"MessageDF0":  "VerticalStatus CrossLinkCapability SensitivityLevel ReplyInformation",
	"MessageDF4":  "FlightStatus DownlinkRequest UtilityMessage.InterrogatorIdentifier UtilityMessage.IdentifierDesignator",
	"MessageDF5":  "FlightStatus DownlinkRequest UtilityMessage.InterrogatorIdentifier UtilityMessage.IdentifierDesignator",
	"MessageDF11": "Capability AddressAnnounced.Address",
	"MessageDF16": "VerticalStatus SensitivityLevel ReplyInformation MessageACAS",
	"MessageDF17": "Capability AddressAnnounced.Address MessageExtendedSquitter",
	"MessageDF18": "ControlField AddressAnnounced.Address MessageExtendedSquitter",
	"MessageDF19": "ApplicationField",
	"MessageDF20": "FlightStatus DownlinkRequest UtilityMessage.InterrogatorIdentifier UtilityMessage.IdentifierDesignator MessageCommB",
	"MessageDF21": "FlightStatus DownlinkRequest UtilityMessage.InterrogatorIdentifier UtilityMessage.IdentifierDesignator MessageCommB",
	"MessageDF24": "ControlELM NumberOfDSegment MessageCommD",

	"NoPositionInformation": "FormatTypeCode AltitudeBarometric NavigationIntegrityCategory",
	"AirbornePosition": "FormatTypeCode SurveillanceStatus SingleAntennaFlag AltitudeSource AltitudeReportMethod AltitudeInFeet " +
		"Time CPRFormat EncodedLatitude EncodedLongitude",
	"AirbornePositionType0": "NavigationIntegrityCategory",
	"AirbornePositionV0":    "HorizontalProtectionLimit ContainmentRadius",
	"AirbornePositionV1":    "NavigationIntegrityCodeSupplementA HorizontalContainmentRadius NavigationIntegrityCategory",
	"AirbornePositionV2": "NavigationIntegrityCodeSupplementA NavigationIntegrityCodeSupplementB HorizontalContainmentRadius " +
		"NavigationIntegrityCategory",
	"SurfacePosition": "FormatTypeCode MovementStatus MovementSpeed GroundTrackStatus GroundTrack Time CPRFormat " +
		"EncodedLatitude EncodedLongitude",
	"SurfacePositionV0": "HorizontalProtectionLimit ContainmentRadius",
	"SurfacePositionV1": "HorizontalContainmentRadius NavigationIntegrityCategory",
	"SurfacePositionV2": "HorizontalContainmentRadius NavigationIntegrityCategory",

	"Status":                            "TransmissionRateSubfield AltitudeTypeSubfield",
	"AircraftIdentificationAndCategory": "FormatTypeCode Category Identification",
	"AirborneVelocityGroundSpeedNormal": "FormatTypeCode Subtype IntentChange IFRCapability NavigationUncertaintyCategory " +
		"DirectionEastWest VelocityEWStatus VelocityEW DirectionNorthSouth VelocityNSStatus VelocityNS " +
		"VerticalRateSource VerticalRateStatus VerticalRate DifferenceAltitudeGNSSBaroStatus DifferenceAltitudeGNSSBaro",
	"AirborneVelocityAirSpeedNormal": "FormatTypeCode Subtype IntentChange IFRCapability NavigationUncertaintyCategory " +
		"MagneticHeadingStatus MagneticHeading AirspeedStatus Airspeed " +
		"VerticalRateSource VerticalRateStatus VerticalRate HeightDifferenceFromBaroStatus HeightDifferenceFromBaro",
	"DataLinkCapabilityReport": "ContinuationFlag OverlayCommandCapability ACASStatus ModeSSubnetworkVersion " +
		"TransponderEnhancedProtocolIndicator ModeSSpecificServicesCapability UplinkELMThroughputCapability " +
		"DownlinkELMThroughputCapability AircraftIdentificationCapability SquitterCapabilitySubfield " +
		"SurveillanceIdentifierCode CommonUsageGICBCapability ACASHybridSurveillanceCapability " +
		"ACASGenerationCapability ACASApplicableDocument DTESubAddressStatuses",
	"CommonUsageGICBCapabilityReport": "ExtendedSquitterAirbornePosition ExtendedSquitterSurfacePosition ExtendedSquitterStatus " +
		"ExtendedSquitterIdentificationAndCategory ExtendedSquitterAirborneVelocityInformation " +
		"ExtendedSquitterEventDrivenInformation AircraftIdentification AircraftRegistrationNumber " +
		"SelectedVerticalIntention NextWaypointIdentifier NextWaypointPosition NextWaypointInformation " +
		"MeteorologicalRoutineReport MeteorologicalHazardReport VHFChannelReport TrackAndTurnReport PositionCoarse " +
		"PositionFine AirReferencedStateVector Waypoint1 Waypoint2 Waypoint3 QuasiStaticParameterMonitoring " +
		"HeadingAndSpeedReport MilitaryApplications",
	"NoMessageAvailable":     "",
	"AircraftIdentification": "Identification",
	"SelectedVerticalIntention": "MCPFCUSelectedAltitudeAvailable MCPFCUSelectedAltitude FMSSelectedAltitudeAvailable " +
		"FMSSelectedAltitude BarometricPressureSettingAvailable BarometricPressureSetting StatusOfModeBits VNAVMode " +
		"AltitudeHoldMode ApproachMode StatusOfTargetAltitudeSource TargetAltitudeSource",
	"MeteorologicalRoutineAirReportV0": "Source WindSpeedStatus WindSpeed WindDirectionStatus WindDirection StaticAirTemperature " +
		"AverageStaticPressureStatus AverageStaticPressure TurbulenceStatus Turbulence HumidityStatus Humidity",
	"MeteorologicalRoutineAirReportV1": "WindSpeedStatus WindSpeed WindDirectionStatus WindDirection StaticAirTemperatureStatus " +
		"StaticAirTemperature AverageStaticPressureStatus AverageStaticPressure TurbulenceFlag HumidityStatus Humidity",
	"MeteorologicalRoutineAirReportV2": "Source WindSpeedStatus WindSpeed WindDirectionStatus WindDirection " +
		"StaticAirTemperatureStatus StaticAirTemperature AverageStaticPressureStatus AverageStaticPressure TurbulenceFlag " +
		"HumidityStatus Humidity",
	"MeteorologicalHazardReportV0": "TurbulenceStatus Turbulence WindShearStatus WindShear MicroBurstStatus MicroBurst " +
		"IcingStatus Icing WakeVortexStatus WakeVortex StaticAirTemperatureStatus StaticAirTemperature " +
		"AverageStaticPressureStatus AverageStaticPressure RadioHeightStatus RadioHeight",
	"MeteorologicalHazardReportV1": "WindShearStatus WindShear MicroBurstStatus MicroBurst IcingStatus Icing WakeVortexStatus " +
		"WakeVortex StaticAirTemperatureStatus StaticAirTemperature AverageStaticPressureStatus AverageStaticPressure " +
		"RadioHeightStatus RadioHeight TurbulenceStatus TurbulenceAverageEDR TurbulencePeakEDR TurbulencePeakDelayInterval",
	"TrackAndTurnReport": "RollAngleStatus RollAngle TrueTrackAngleStatus TrueTrackAngle GroundSpeedStatus GroundSpeed " +
		"TrackAngleRateStatus TrackAngleRate TrueAirSpeedStatus TrueAirSpeed",
	"HeadingAndTrackReport": "MagneticHeadingStatus MagneticHeading IndicatedAirSpeedStatus IndicatedAirSpeed MachStatus Mach " +
		"BarometricAltitudeRateStatus BarometricAltitudeRate InitialVerticalVelocityStatus InitialVerticalVelocity",
	"AircraftStatusNoInformation": "FormatTypeCode Subtype EmergencyPriorityStatus",
	"AircraftStatusEmergency":     "FormatTypeCode Subtype EmergencyPriorityStatus ModeACode",
	"AircraftStatusACAS":          "FormatTypeCode Subtype",
	"TargetStateAndStatus0": "FormatTypeCode Subtype VerticalDataAvailableSourceIndicator TargetAltitudeType TargetAltitudeCapability " +
		"VerticalModeIndicator TargetAltitudeStatus TargetAltitude HorizontalDataAvailableSourceIndicator " +
		"TargetHeadingTrackAngleStatus TargetHeadingTrackAngle TargetHeadingTrackIndicator HorizontalModeIndicator " +
		"NavigationalAccuracyCategoryPosition NICBaro SurveillanceIntegrityLevel CapabilityModeCode EmergencyPriorityStatus",
	"TargetStateAndStatus1": "FormatTypeCode Subtype SourceIntegrityLevelSupplement SelectedAltitudeType SelectedAltitudeStatus " +
		"SelectedAltitude BarometricPressureSettingStatus BarometricPressureSetting SelectedHeadingStatus SelectedHeading " +
		"NavigationalAccuracyCategoryPosition NICBaro SourceIntegrityLevel StatusMCPFCUBits AutopilotEngaged " +
		"VNAVModeEngaged AltitudeHoldModeEngaged ApproachModeEngaged TCASACASOperational LNAVModeEngaged",
	"AircraftOperationalStatusADSB0": "FormatTypeCode Subtype EnRouteOperationalCapabilities TerminalAreaOperationalCapabilities " +
		"ApproachLandingOperationalCapabilities SurfaceOperationalCapabilities EnRouteOperationalCapabilityStatus " +
		"TerminalAreaOperationalCapabilityStatus ApproachLandingOperationalCapabilityStatus SurfaceOperationalCapabilityStatus",
	"AircraftOperationalStatusAirborneADSB1": "FormatTypeCode Subtype AirborneCapabilityClass.NotACASStatus " +
		"AirborneCapabilityClass.CockpitDisplayOfTrafficInformationStatus AirborneCapabilityClass.AirReferencedVelocityReportCapability " +
		"AirborneCapabilityClass.TargetStateReportCapability AirborneCapabilityClass.TargetChangeReportCapability " +
		"OperationalMode.ACASResolutionAdvisoryActive OperationalMode.IdentSwitchActive OperationalMode.ReceivingATCServices " +
		"VersionNumber NICSupplement NavigationalAccuracyCategoryPosition SurveillanceIntegrityLevel NICBaro HorizontalReferenceDirection",
	"AircraftOperationalStatusAirborneADSB2": "FormatTypeCode Subtype AirborneCapabilityClass.ACASOperational " +
		"AirborneCapabilityClass.ExtendedSquitterIn AirborneCapabilityClass.AirReferencedVelocityReportCapability " +
		"AirborneCapabilityClass.TargetStateReportCapability AirborneCapabilityClass.TargetChangeReportCapability " +
		"AirborneCapabilityClass.UniversalAccessTransceiverCapability " +
		"OperationalMode.ACASResolutionAdvisoryActive OperationalMode.IdentSwitchActive OperationalMode.SingleAntennaFlag " +
		"OperationalMode.SystemDesignAssurance VersionNumber NICSupplementA NavigationalAccuracyCategoryPosition " +
		"GeometricVerticalAccuracy SourceIntegrityLevel NICBaro HorizontalReferenceDirection SourceIntegrityLevelSupplement",
	"AircraftOperationalStatusSurfaceADSB1": "FormatTypeCode Subtype SurfaceCapabilityClass.PositionOffsetApplied " +
		"SurfaceCapabilityClass.CockpitDisplayOfTrafficInformationStatus SurfaceCapabilityClass.B2Low LengthAndWidth " +
		"OperationalMode.ACASResolutionAdvisoryActive OperationalMode.IdentSwitchActive OperationalMode.ReceivingATCServices " +
		"VersionNumber NICSupplement NavigationalAccuracyCategoryPosition SurveillanceIntegrityLevel TrackAngleHeading " +
		"HorizontalReferenceDirection",
	"AircraftOperationalStatusSurfaceADSB2": "FormatTypeCode Subtype SurfaceCapabilityClass.ExtendedSquitterIn " +
		"SurfaceCapabilityClass.B2Low SurfaceCapabilityClass.UniversalAccessTransceiverCapability " +
		"SurfaceCapabilityClass.NavigationAccuracyCategoryVelocity SurfaceCapabilityClass.NICSupplementC LengthAndWidth " +
		"OperationalMode.ACASResolutionAdvisoryActive OperationalMode.IdentSwitchActive OperationalMode.SingleAntennaFlag " +
		"OperationalMode.SystemDesignAssurance OperationalMode.GPSAntenna.GPSAntennaLateral OperationalMode.GPSAntenna.GPSAntennaLongitudinal " +
		"VersionNumber NICSupplementA NavigationalAccuracyCategoryPosition SourceIntegrityLevel TrackAngleHeading " +
		"HorizontalReferenceDirection SourceIntegrityLevelSupplement",

	"ActiveRANoVerticalRAGenerated": "",
	"ActiveRAOneThreatOrSameSeparation": "PreventiveCorrective Sense IsIncreasedRate IsSenseReversal IsAltitudeCrossing " +
		"VerticalSpeedLimitOrPositive",
	"ActiveRAMultipleThreatsDifferentSeparation": "RequiresCorrectionUpwardSense RequiresPositiveClimb RequiresCorrectionDownwardSense " +
		"RequiresPositiveDescend RequiresCrossing IsSenseReversal",
	"ResolutionAdvisory": "RAComplement.DoNotPassBelow RAComplement.DoNotPassAbove RAComplement.DoNotTurnLeft " +
		"RAComplement.DoNotTurnRight RATerminatedIndicator MultipleThreatEncounter ThreatTypeIndicator",
}

var layoutPaths = map[string][]string{}

func init() {
	layout["AirborneVelocityGroundSpeedSupersonic"] = layout["AirborneVelocityGroundSpeedNormal"]
	layout["AirborneVelocityAirSpeedSupersonic"] = layout["AirborneVelocityAirSpeedNormal"]
	for k, v := range layout {
		layoutPaths[k] = strings.Fields(v)
	}
}

// core follows pointers, interfaces and wrapping structures that only embed another message.
func core(v reflect.Value) reflect.Value {
	for {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				return reflect.Value{}
			}
			v = v.Elem()
			continue
		case reflect.Struct:
			t := v.Type()
			if _, known := layout[t.Name()]; known && t.NumField() > 0 && !wrapsSameName(t) {
				return v
			}
			found := false
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).Anonymous && t.Field(i).PkgPath == "" {
					v = v.Field(i)
					found = true
					break
				}
			}
			if found {
				continue
			}
		}
		return v
	}
}

// wrapsSameName is true for a structure embedding a structure or interface of its own name.
func wrapsSameName(t reflect.Type) bool {
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Anonymous && t.Field(i).Name == t.Name() {
			return true
		}
	}
	return false
}

func tag(m interface{}) string {
	v := core(reflect.ValueOf(m))
	if !v.IsValid() {
		return "NIL"
	}
	return v.Type().Name()
}

// Values that are not numbers, when a number is expected. The specification never expects them.
const (
	cNaN     = int64(-2147483641)
	cInf     = int64(-2147483642)
	cOut     = int64(-2147483643)
	cNil     = int64(-2147483644)
	cMissing = int64(-2147483645)
)

func milli(f float64, scale float64) interface{} {
	if math.IsNaN(f) {
		return cNaN
	}
	if math.IsInf(f, 0) {
		return cInf
	}
	r := math.Round(f * scale)
	if math.Abs(r) > 2147483000 {
		return cOut
	}
	return int64(r)
}

func scalar(v reflect.Value) interface{} {
	for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		if v.IsNil() {
			return cNil
		}
		v = v.Elem()
	}
	if !v.IsValid() {
		return cMissing
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return int64(1)
		}
		return int64(0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u := v.Uint()
		if u > 2147483647 {
			return cOut
		}
		return int64(u)
	case reflect.Float32, reflect.Float64:
		return milli(v.Float(), 1000)
	case reflect.String:
		return v.String()
	case reflect.Slice, reflect.Array:
		r := make([]interface{}, v.Len())
		for i := range r {
			r[i] = scalar(v.Index(i))
		}
		return r
	}
	return "KIND-" + v.Kind().String()
}

func path(v reflect.Value, p string) reflect.Value {
	for _, name := range strings.Split(p, ".") {
		for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
			v = v.Elem()
		}
		if !v.IsValid() || v.Kind() != reflect.Struct {
			return reflect.Value{}
		}
		v = v.FieldByName(name)
	}
	return v
}

// fieldsOf gives the values of the fields of the layout "kind" in the message m
func fieldsOf(m interface{}, kind string) []interface{} {
	v := core(reflect.ValueOf(m))
	r := []interface{}{}
	for _, p := range layoutPaths[kind] {
		r = append(r, scalar(path(v, p)))
	}
	return r
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
