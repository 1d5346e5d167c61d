package main

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_operational_status"
)

func init() {
	directs["opstatus"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return aircraft_operational_status.ReadAircraftOperationalStatus(v, d)
	}
}
