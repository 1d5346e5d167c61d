package main

import (
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
)

func init() {
	coded(
		bds07.Status{},
		bds10.DataLinkCapabilityReport{},
		bds40.SelectedVerticalIntention{},
		bds44.MeteorologicalRoutineAirReportV0{},
		bds44.MeteorologicalRoutineAirReportV1{},
		bds44.MeteorologicalRoutineAirReportV2{},
		bds45.MeteorologicalHazardReportV0{},
		bds45.MeteorologicalHazardReportV1{},
	)
}
