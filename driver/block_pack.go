package main

import (
	"github.com/twuillemin/modes/pkg/bitutils"
)

func pack(how string, x []interface{}) tuple {
	b := func(i int) byte { return byte(num(x[i])) }
	t := func(i int) bool { return num(x[i]) != 0 }
	var r uint64
	switch how {
	case "2":
		r = uint64(bitutils.Pack2Bytes(b(0), b(1)))
	case "3":
		r = uint64(bitutils.Pack3Bytes(b(0), b(1), b(2)))
	case "4":
		r = uint64(bitutils.Pack4Bytes(b(0), b(1), b(2), b(3)))
	case "8":
		r = uint64(bitutils.Pack8Bits(t(0), t(1), t(2), t(3), t(4), t(5), t(6), t(7)))
	case "16":
		r = uint64(bitutils.Pack16Bits(t(0), t(1), t(2), t(3), t(4), t(5), t(6), t(7), t(8), t(9), t(10), t(11), t(12), t(13), t(14), t(15)))
	}
	return tuple{int64(r >> 16), int64(r & 0xFFFF)}
}

func init() {
	blocks["pack"] = func(args tuple, _ func(int) []byte, _ func()) tuple {
		return pack(args[0].(string), args[1].([]interface{}))
	}
}
