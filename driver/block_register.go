package main

import (
	"strings"

	"github.com/twuillemin/modes/pkg/bds/register"
)

var registersKnown = map[string]register.Register{
	"00": register.BDS00, "05": register.BDS05, "06": register.BDS06, "07": register.BDS07, "08": register.BDS08, "09": register.BDS09, "10": register.BDS10,
	"17": register.BDS17, "20": register.BDS20, "30": register.BDS30, "40": register.BDS40, "44": register.BDS44, "45": register.BDS45, "50": register.BDS50,
	"60": register.BDS60, "61": register.BDS61, "62": register.BDS62, "65": register.BDS65,
}

func init() {
	blocks["register"] = func(args tuple, _ func(int) []byte, _ func()) tuple {
		x := registersKnown[args[0].(string)]
		return tuple{strings.TrimSpace(x.GetId()), strings.TrimSpace(x.GetDescription()), plain(x.ToString())[0]}
	}
}
