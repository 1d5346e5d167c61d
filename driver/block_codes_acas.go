package main

import (
	"github.com/twuillemin/modes/pkg/acas/ra"
	rafields "github.com/twuillemin/modes/pkg/acas/ra/fields"
)

func init() {
	coded(
		ra.ResolutionAdvisory{},
		rafields.ActiveRAOneThreatOrSameSeparation{},
	)
}
