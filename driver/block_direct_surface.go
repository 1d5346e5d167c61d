package main

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
)

func init() {
	directs["surf"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return surface_position.ReadSurfacePosition(v, d, a, c)
	}
	directs["surfv0"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return surface_position.ReadSurfacePositionV0(d)
	}
	directs["surfv1"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return surface_position.ReadSurfacePositionV1(d, a)
	}
	directs["surfv2"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return surface_position.ReadSurfacePositionV2(d, a, c)
	}
}
