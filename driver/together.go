package main

// Callers that share what they give to the library and what it gives to them: the same octets are read by several
// goroutines at the same time, then the same message is asked everything by several goroutines at the same time.

import (
	"fmt"
	"reflect"
	"sync"

	"github.com/twuillemin/modes/pkg/adsb"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/commb"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

const sharing = 4

// octets gives the octets of an operation, and nil when it has none (or several of them)
func octets(args tuple) (b []byte) {
	for _, a := range args {
		if x, ok := a.([]byte); ok {
			if b != nil {
				return nil
			}
			b = bytesOf(x)
		}
	}
	return b
}

// shared decodes the message of an operation, once
func shared(op string, args tuple, b []byte) []interface{} {
	var m interface{}
	var err error
	read := func(name string) {
		if r, ok := readers[name]; ok {
			m, err = r(b)
		}
	}
	switch op {
	case "class", "hdr", "raw", "alt", "idn", "crc":
		m, err = modesreader.ReadMessage(b)
	case "reg", "get", "rlen":
		read(args[0].(string))
	case "text":
		switch args[0].(string) {
		case "frame":
			m, err = modesreader.ReadMessage(b)
		case "adsb":
			m, err = adsbreader.ReadADSBMessage(adsb.ADSBVersion(num(args[1])), num(args[2]) != 0, num(args[3]) != 0, b)
		default:
			read(args[0].(string))
		}
	case "adsb", "adsbtype", "integ":
		m, err = adsbreader.ReadADSBMessage(adsb.ADSBVersion(num(args[0])), num(args[1]) != 0, num(args[2]) != 0, b)
	case "commb", "commbv":
		ms, err := commb.ReadCommBMessage(b)
		r := []interface{}{}
		if err == nil {
			for _, m := range ms {
				r = append(r, m)
			}
		}
		return r
	}
	if m == nil || err != nil || reflect.ValueOf(m).Kind() == reflect.Ptr && reflect.ValueOf(m).IsNil() {
		return nil
	}
	return []interface{}{m}
}

// all asks a message everything: the results of all its methods without parameter
func all(m interface{}) string {
	v := reflect.ValueOf(m)
	s := ""
	for i := 0; i < v.NumMethod(); i++ {
		if v.Method(i).Type().NumIn() > 0 {
			continue
		}
		s += v.Type().Method(i).Name
		for _, r := range v.Method(i).Call(nil) {
			switch r.Kind() {
			case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16,
				reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.String:
				s += fmt.Sprintf(" %v", r.Interface())
			case reflect.Interface: // an error
				s += fmt.Sprintf(" %v", r.IsNil())
			}
		}
		s += "\n"
	}
	return s
}

// atOnce executes f in several goroutines that start at the same time, and tells whether all the results are the same
func atOnce(f func() string) (same bool, what string) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	results := make([]string, sharing)
	for k := range results {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					results[k] = fmt.Sprint("PANIC ", r)
				}
			}()
			<-start
			results[k] = f()
		}(k)
	}
	close(start)
	wg.Wait()
	for _, r := range results {
		if r != results[0] {
			return false, ""
		}
	}
	return true, results[0]
}

// together executes an operation by several callers that share its octets and its result
func together(op string, args tuple) tuple {
	out := Eval(op, args)
	b := octets(args)
	if b == nil || len(b) == 0 || out[0] == "PANIC" {
		return out
	}
	before := string(b)
	same, text := atOnce(func() string { return fmt.Sprint(evalWith(op, args, func() {}, b)) })
	if !same || text != fmt.Sprint(out) {
		return tuple{"SHARED OCTETS"}
	}
	for _, m := range shared(op, args, b) {
		if same, _ := atOnce(func() string { return all(m) }); !same {
			return tuple{"SHARED MESSAGE"}
		}
	}
	if string(b) != before {
		return tuple{"MUT"}
	}
	return out
}
