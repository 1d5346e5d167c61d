package main

import (
	"github.com/twuillemin/modes/pkg/modes/common"
)

func init() {
	blocks["address"] = func(args tuple, _ func(int) []byte, _ func()) tuple {
		return tuple{plain(common.ICAOAddress(num(args[0])).ToString())[0]}
	}
}
