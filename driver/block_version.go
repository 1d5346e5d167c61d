package main

import (
	"github.com/twuillemin/modes/pkg/adsb"
)

func init() {
	blocks["version"] = func(args tuple, _ func(int) []byte, _ func()) tuple {
		return tuple{plain(adsb.ADSBVersion(num(args[0])).ToString())[0]}
	}
}
