package main

import (
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
)

// parse calls the parser of one format, on octets cut as ReadMessage does
func parse(format int64, d []byte) (m messages.ModeSMessage, err error) {
	data := common.MessageData{DownLinkFormat: d[0] >> 3, FirstField: d[0] & 7, Payload: d[1 : len(d)-3], Parity: d[len(d)-3:]}
	switch format {
	case 0:
		m, err = messages.ParseDF0(data)
	case 4:
		m, err = messages.ParseDF4(data)
	case 5:
		m, err = messages.ParseDF5(data)
	case 11:
		m, err = messages.ParseDF11(data)
	case 16:
		m, err = messages.ParseDF16(data)
	case 17:
		m, err = messages.ParseDF17(data)
	case 18:
		m, err = messages.ParseDF18(data)
	case 19:
		m, err = messages.ParseDF19(data)
	case 20:
		m, err = messages.ParseDF20(data)
	case 21:
		m, err = messages.ParseDF21(data)
	case 24:
		m, err = messages.ParseDF24(data)
	}
	return
}

func init() {
	blocks["parse"] = func(args tuple, in func(int) []byte, between func()) tuple {
		m, err := parse(num(args[0]), in(1))
		between()
		if err != nil {
			return errTuple
		}
		kind := tag(m)
		out := append(tuple{kind}, fieldsOf(m, kind)...)
		return append(out, int64(m.GetDownLinkFormat()), m.GetName())
	}
}
