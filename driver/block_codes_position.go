package main

import (
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bds/bds06"
)

func init() {
	coded(
		airborne_position.AirbornePositionV0{},
		airborne_position.AirbornePositionV1{},
		airborne_position.AirbornePositionV2{},
		surface_position.SurfacePositionV0{},
		surface_position.SurfacePositionV1{},
		surface_position.SurfacePositionV2{},
		bds05.AirbornePosition{},
		bds06.SurfacePosition{},
	)
}
