package main

import (
	"github.com/twuillemin/modes/pkg/bitutils"
)

func init() {
	blocks["gillham"] = func(args tuple, _ func(int) []byte, _ func()) tuple {
		x := args[0].([]interface{})
		t := func(i int) bool { return num(x[i]) != 0 }
		feet, err := bitutils.GillhamToAltitude(t(0), t(1), t(2), t(3), t(4), t(5), t(6), t(7), t(8), t(9), t(10), t(11))
		if err != nil {
			return errTuple
		}
		return tuple{"FT", int64(feet)}
	}
}
