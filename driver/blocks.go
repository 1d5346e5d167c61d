package main

// The blocks of the API that a program may use alone: the readers of one format, the texts of the codes, the bounds of
// the radii, the references of the registers, the packing of bits, the Gillham code. Each file block_*.go holds the calls
// of one of them: it is left out (and the fact is told) when the library does not export it any more.

import (
	"reflect"
	"sort"
	"strings"

	"github.com/twuillemin/modes/pkg/adsb"
)

// blocks are the operations
var blocks = map[string]func(args tuple, in func(int) []byte, between func()) tuple{}

// directs are the readers of one ADS-B message
var directs = map[string]func(v adsb.ADSBVersion, a, c bool, d []byte) (adsb.Message, error){}

// The structures whose fields are codes
var structures = map[string]reflect.Type{}

func coded(examples ...interface{}) {
	for _, m := range examples {
		t := reflect.TypeOf(m)
		structures[t.Name()] = t
	}
}

type text interface{ ToString() string }

// codeType gives the type of the field of a structure, nil when it has no text of its own
func codeType(kind, path string) reflect.Type {
	t, ok := structures[kind]
	if !ok {
		return nil
	}
	for _, name := range strings.Split(path, ".") {
		for t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		if t.Kind() != reflect.Struct {
			return nil
		}
		f, ok := t.FieldByName(name)
		if !ok {
			return nil
		}
		t = f.Type
	}
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if t.Implements(reflect.TypeOf((*text)(nil)).Elem()) {
			return t
		}
	}
	return nil
}

// plain is the text of a value, without the differences that do not matter
func plain(s string) tuple {
	s = strings.NewReplacer("\u03bc", "mu", "\u2265", ">=").Replace(s)
	if strings.Contains(s, "\n") || strings.HasPrefix(s, "BDS ") {
		s = strings.Join(strings.Fields(s), " ")
	}
	t, n := number(strings.TrimSpace(s))
	return tuple{t, n}
}

func codeText(kind, path string, n int64) tuple {
	t := codeType(kind, path)
	if t == nil {
		return tuple{"NOCODE"}
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(n != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(n)
	default:
		v.SetUint(uint64(n))
	}
	return plain(v.Interface().(text).ToString())
}

// block executes an operation on a block; nil when it is not one of them
func block(op string, args tuple, in func(int) []byte, between func()) tuple {
	switch op {
	case "code":
		return codeText(args[0].(string), args[1].(string), num(args[2]))

	case "direct":
		read, ok := directs[args[0].(string)]
		if !ok {
			return tuple{"NOREADER"}
		}
		m, err := read(adsb.ADSBVersion(num(args[1])), num(args[2]) != 0, num(args[3]) != 0, in(4))
		between()
		if err != nil {
			return errTuple
		}
		kind := tag(m)
		out := append(tuple{int64(m.GetADSBVersion()), kind}, content(m)...)
		if strings.HasPrefix(kind, "AirbornePosition") || strings.HasPrefix(kind, "SurfacePosition") {
			out = append(out, fieldsOf(m, kind)...)
		}
		return out
	}
	if b, ok := blocks[op]; ok {
		return b(args, in, between)
	}
	return nil
}

// The order is the one of the generation
var directNames = []string{"air", "air0", "airv0", "airv1", "airv2", "surf", "surfv0", "surfv1", "surfv2", "none", "ident", "velocity", "status", "target", "opstatus"}

// ---------------------------------------------------------------------------------------------------------------------

func bits(v uint64, n int) []interface{} {
	r := make([]interface{}, n)
	for i := range r {
		r[i] = int64(v>>uint(n-1-i)) & 1
	}
	return r
}

func genBlocks(g *gen) {
	// What is left out is not called
	emit := func(op string, args ...interface{}) {
		if op == "direct" {
			if _, ok := directs[args[0].(string)]; !ok {
				return
			}
		} else if _, ok := blocks[op]; !ok && op != "code" && op != "reg" {
			return
		}
		g.emit(op, args...)
	}

	// All the codes
	kinds := []string{}
	for k := range structures {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		paths := append([]string{}, layoutPaths[k]...)
		if k == "category" {
			paths = []string{"A", "B", "C", "D"}
		}
		if k == "ResolutionAdvisory" {
			paths = append(paths, "ThreatIdentityAltitude.AltitudeStatus", "ThreatIdentityRange", "ThreatIdentityBearing")
		}
		for _, extra := range []string{"AltitudeReportMethod"} {
			if strings.HasPrefix(k, "MessageDF") && codeType(k, extra) != nil {
				paths = append(paths, extra)
			}
		}
		for _, p := range paths {
			t := codeType(k, p)
			if t == nil {
				continue
			}
			last := int64(255)
			if t.Kind() == reflect.Bool {
				last = 1
			}
			if p == "MovementStatus" { // 7 bits
				last = 127
			}
			for n := int64(0); n <= last; n++ {
				emit("code", k, p, n)
			}
		}
	}
	for n := int64(0); n < 256; n++ {
		emit("bounds", "hpl", n)
		emit("bounds", "radius", n)
		emit("version", n)
	}
	for _, r := range []string{"00", "05", "06", "07", "08", "09", "10", "17", "20", "30", "40", "44", "45", "50", "60", "61", "62", "65"} {
		emit("register", r)
	}
	for i := uint(0); i < 24; i++ {
		for j := uint(0); j < 24; j++ {
			emit("address", int64(1)<<i|int64(1)<<j)
		}
	}
	for k := 0; k < g.n(1000, 10000); k++ {
		emit("address", int64(g.r.Intn(1<<24)))
	}

	// The advisories made by hand
	for k := 0; k < g.n(60, 600); k++ {
		for missing := int64(0); missing < 16; missing++ {
			b := g.random(6)
			b[2] = b[2]&0xF3 | byte(k%4)<<2
			emit("byhand", b, missing)
		}
	}

	// The packing
	for n := uint64(0); n < 256; n++ {
		emit("pack", "8", bits(n, 8))
	}
	for n := uint64(0); n < 65536; n++ {
		if g.thorough || n < 512 || n%256 == 0 || g.r.Intn(10) == 0 {
			emit("pack", "16", bits(n, 16))
		}
	}
	for i, how := range []string{"2", "3", "4"} {
		for k := 0; k < g.n(600, 6000); k++ {
			x := []interface{}{}
			for j := 0; j < i+2; j++ {
				switch g.r.Intn(4) {
				case 0:
					x = append(x, int64(0))
				case 1:
					x = append(x, int64(255))
				case 2:
					x = append(x, int64(1)<<uint(g.r.Intn(8)))
				default:
					x = append(x, int64(g.r.Intn(256)))
				}
			}
			emit("pack", how, x)
		}
	}

	// The pulses
	for n := uint64(0); n < 4096; n++ {
		emit("gillham", bits(n, 12))
	}

	// Each format given the data of all of them
	formats := []int64{0, 4, 5, 11, 16, 17, 18, 19, 20, 21, 24}
	for df := 0; df < 32; df++ {
		for _, f := range formats {
			for k := 0; k < g.n(8, 80); k++ {
				b := g.random(7)
				if k%2 == 0 {
					b = g.random(14)
				}
				if k%4 == 3 {
					b = g.random(4 + g.r.Intn(14))
				}
				b[0] = byte(df)<<3 | b[0]&7
				emit("parse", f, b)
			}
		}
	}
	for _, f := range formats {
		for k := 0; k < g.n(300, 6000); k++ {
			b := g.frame(int(f))
			if f == 24 {
				b[0] |= byte(g.r.Intn(64))
			}
			emit("parse", f, b)
		}
	}

	// Each reader of a register given what is its own, but for a window of bits
	names := []string{}
	for n := range readers {
		names = append(names, n)
	}
	sort.Strings(names)
	first := map[string][]int{"bds05": {9 << 3, 18 << 3, 20 << 3, 0}, "bds06": {5 << 3, 8 << 3}, "bds08": {1 << 3, 4 << 3}, "bds09": {19<<3 | 1, 19<<3 | 4}, "bds09gn": {19<<3 | 1}, "bds09gs": {19<<3 | 2},
		"bds09an": {19<<3 | 3}, "bds09as": {19<<3 | 4}, "bds10": {0x10}, "bds20": {0x20}, "bds30": {0x30}, "bds61": {28<<3 | 1, 28<<3 | 2}, "bds61n": {28 << 3}, "bds61e": {28<<3 | 1}, "bds61a": {28<<3 | 2},
		"bds62": {29 << 3, 29<<3 | 2}, "bds62t0": {29 << 3}, "bds62t1": {29<<3 | 2}, "bds65": {31 << 3, 31<<3 | 1}, "bds65v0": {31 << 3}, "bds65a1": {31 << 3}, "bds65a2": {31 << 3},
		"bds65s1": {31<<3 | 1}, "bds65s2": {31<<3 | 1}}
	version := map[string]uint64{"bds65a1": 1, "bds65s1": 1, "bds65a2": 2, "bds65s2": 2}
	for _, name := range names {
		size := 7
		if name == "ra" {
			size = 6
		}
		octets := first[name]
		if octets == nil {
			octets = []int{0}
		}
		for _, o := range octets {
			base := make([]byte, size)
			if o != 0 {
				base[0] = byte(o)
			}
			switch name {
			case "bds05":
				g.legal12(base)
			case "bds20":
				g.letters(base)
			}
			if v, ok := version[name]; ok {
				put(base, 41, 43, v)
			}
			for s := 1; s+7 <= 8*size; s += 4 {
				for v := uint64(0); v < 256; v++ {
					if s > 1 && s != 41 && !g.thorough && g.r.Intn(3) > 0 {
						continue
					}
					b := clone(base)
					put(b, s, s+7, v)
					emit("reg", name, b)
				}
			}
		}
	}

	// Each ADS-B reader given the messages of all the type codes
	v := func() int64 {
		if g.r.Intn(8) == 0 {
			return int64(3 + g.r.Intn(6))
		}
		return g.v3()
	}
	for _, name := range directNames {
		for tc := 0; tc < 32; tc++ {
			for k := 0; k < g.n(40, 400); k++ {
				b := g.random(7)
				if k%3 == 0 {
					b = g.sparse(7)
				}
				b[0] = byte(tc)<<3 | b[0]&7
				if k%4 == 0 && tc < 23 {
					g.legal12(b)
				}
				emit("direct", name, v(), g.bool_(), g.bool_(), b)
			}
		}
		g.lengths(func(b []byte) { emit("direct", name, v(), g.bool_(), g.bool_(), b) })
		// All the lengths, and a type code that may be read
		for n := 0; n <= 20; n++ {
			for k := 0; k < g.n(32, 200); k++ {
				b := g.random(n)
				if n > 0 {
					b[0] = byte(k)<<3 | b[0]&7
				}
				emit("direct", name, v(), g.bool_(), g.bool_(), b)
			}
		}
	}
	// The messages of the type that each of them reads
	good := map[string][]int{"air": {0, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22}, "air0": {0}, "airv0": {9, 18, 20, 22}, "airv1": {9, 11, 13, 16, 18, 20}, "airv2": {9, 11, 13, 16, 20, 22},
		"surf": {5, 6, 7, 8}, "surfv0": {5, 6, 7, 8}, "surfv1": {5, 6, 7, 8}, "surfv2": {5, 6, 7, 8}, "none": {0}, "ident": {1, 2, 3, 4}, "velocity": {19}, "status": {28}, "target": {29}, "opstatus": {31}}
	for _, name := range directNames {
		for k := 0; k < g.n(1500, 20000); k++ {
			b := g.random(7)
			if k%3 == 0 {
				b = g.sparse(7)
			}
			tc := good[name][g.r.Intn(len(good[name]))]
			b[0] = byte(tc)<<3 | b[0]&7
			if k%4 > 0 && tc < 23 {
				g.legal12(b)
			}
			if tc >= 28 && k%2 == 0 {
				b[0] = byte(tc)<<3 | byte(g.r.Intn(3))
				if tc == 29 {
					b[0] = byte(tc)<<3 | byte(g.r.Intn(2))<<1
				}
			}
			if tc == 0 && k%5 == 0 {
				b[2] &= 0xF0
				copy(b[3:], []byte{0, 0, 0, 0})
			}
			emit("direct", name, v(), g.bool_(), g.bool_(), b)
		}
	}
}

// legal12 makes the altitude of an airborne position legal (25 feet increments)
func (g *gen) legal12(b []byte) { put(b, 16, 16, 1) }
