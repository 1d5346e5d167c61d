package main

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_velocity"
)

func init() {
	directs["velocity"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return airborne_velocity.ReadAirborneVelocity(v, d)
	}
}
