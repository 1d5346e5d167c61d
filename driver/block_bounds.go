package main

import (
	surfacefields "github.com/twuillemin/modes/pkg/adsb/surface_position/fields"
)

func init() {
	blocks["bounds"] = func(args tuple, _ func(int) []byte, _ func()) tuple {
		n := byte(num(args[1]))
		if args[0].(string) == "hpl" {
			x := surfacefields.HorizontalProtectionLimit(n)
			return tuple{milli(x.GetHPLLowerBound(), 10), milli(x.GetHPLHigherBound(), 10)}
		}
		x := surfacefields.ContainmentRadius(n)
		return tuple{milli(x.GetHorizontalContainmentLowerBound(), 10), milli(x.GetHorizontalContainmentHigherBound(), 10)}
	}
}
