package main

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/target_state_and_status"
)

func init() {
	directs["target"] = func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error) {
		return target_state_and_status.ReadTargetStateAndStatus(v, d)
	}
}
