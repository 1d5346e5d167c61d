package main

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
)

func init() {
	directs["ident"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return aircraft_identification_and_category.ReadAircraftIdentificationAndCategory(v, d)
	}
}
