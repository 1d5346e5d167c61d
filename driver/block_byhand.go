package main

import (
	"github.com/twuillemin/modes/pkg/acas/ra"
)

// An advisory some parts of which are missing, as in the ones that are made by hand
func init() {
	blocks["byhand"] = func(args tuple, in func(int) []byte, between func()) tuple {
		m, err := ra.ReadResolutionAdvisory(in(0))
		between()
		if err != nil {
			return errTuple
		}
		missing := num(args[1])
		if missing&1 != 0 {
			m.ThreatIdentityAddress = nil
		}
		if missing&2 != 0 {
			m.ThreatIdentityAltitude = nil
		}
		if missing&4 != 0 {
			m.ThreatIdentityRange = nil
		}
		if missing&8 != 0 {
			m.ThreatIdentityBearing = nil
		}
		return lines(m.ToString())
	}
}
