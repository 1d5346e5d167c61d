package main

import (
	bds08fields "github.com/twuillemin/modes/pkg/bds/bds08/fields"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
)

// category has the sets of categories of the aircraft, that the identifications have behind an interface
type category struct {
	A bds08fields.AircraftCategorySetA
	B bds08fields.AircraftCategorySetB
	C bds08fields.AircraftCategorySetC
	D bds08fields.AircraftCategorySetD
}

func init() {
	coded(
		bds09.AirborneVelocityGroundSpeedNormal{},
		bds09.AirborneVelocityGroundSpeedSupersonic{},
		bds09.AirborneVelocityAirSpeedNormal{},
		bds09.AirborneVelocityAirSpeedSupersonic{},
		bds61.AircraftStatusNoInformation{},
		bds61.AircraftStatusEmergency{},
		bds62.TargetStateAndStatus0{},
		bds62.TargetStateAndStatus1{},
		bds65.AircraftOperationalStatusADSB0{},
		bds65.AircraftOperationalStatusAirborneADSB1{},
		bds65.AircraftOperationalStatusAirborneADSB2{},
		bds65.AircraftOperationalStatusSurfaceADSB1{},
		bds65.AircraftOperationalStatusSurfaceADSB2{},
		category{},
	)
}
