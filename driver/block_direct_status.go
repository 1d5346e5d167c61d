package main

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_status"
)

func init() {
	directs["status"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return aircraft_status.ReadAircraftStatus(v, d)
	}
}
