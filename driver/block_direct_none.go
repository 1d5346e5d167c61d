package main

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/no_position_information"
)

func init() {
	directs["none"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return no_position_information.ReadNoPositionInformation(v, d)
	}
}
