package main

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
)

func init() {
	directs["air"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return airborne_position.ReadAirbornePosition(v, d, a)
	}
	directs["air0"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return airborne_position.ReadAirbornePositionType0(v, d)
	}
	directs["airv0"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return airborne_position.ReadAirbornePositionV0(d)
	}
	directs["airv1"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return airborne_position.ReadAirbornePositionV1(d, a)
	}
	directs["airv2"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return airborne_position.ReadAirbornePositionV2(d, a)
	}
}
