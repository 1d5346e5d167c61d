package main

// Generation of the inputs of the operations. Every family of inputs is a function of a seed and of a tier; the
// operations are executed and the records (operation, arguments, result) are written in several files.

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
)

type gen struct {
	r        *rand.Rand
	thorough bool
	boost    int // how many times more calls than the least
	recs     []rec
}

type rec struct {
	op   string
	args tuple
}

func (g *gen) emit(op string, args ...interface{}) {
	g.recs = append(g.recs, rec{op, args})
}

// n chooses a number of repetitions
func (g *gen) n(quick, thorough int) int {
	if g.thorough || quick*g.boost > thorough {
		return thorough
	}
	if g.boost > 0 {
		return quick * g.boost
	}
	return quick
}

var families map[string]func(*gen)

func init() {
	families = map[string]func(*gen){
		"P01": genClass, "P02": genHeader, "P03": genCrc, "P04": genAltitude, "P05": genIdentity, "P06": genRouting,
		"P07": genAirborne, "P08": genIntegrity, "P09": genSurface, "P10": genIdent, "P11": genVelocity, "P12": genStatus,
		"P13": genTarget, "P14": genOperational, "P15": genCommB, "P16": genEhs, "P17": genMeteo, "P18": genCapability,
		"P19": genRa, "P20": genAir, "P21": genSurf, "P22": genLocal, "P23": genDistance, "P24": genText, "P27": genReceived, "P28": genBlocks,
		"P26": genMixed,
	}
}

// The families that are made of the others, and those whose calls take longer to decide
var composed = map[string]bool{"P23": true, "P24": true, "P26": true, "P27": true, "P28": true}

func genMain(args []string) error {
	if len(args) != 5 {
		return fmt.Errorf("gen <family> <seed> <tier> <shards> <dir>")
	}
	f := families[args[0]]
	if f == nil {
		return fmt.Errorf("unknown family %v", args[0])
	}
	seed, err := strconv.ParseInt(args[1], 10, 64)
	if err != nil {
		return err
	}
	shards, err := strconv.Atoi(args[3])
	if err != nil {
		return err
	}
	g := &gen{r: rand.New(rand.NewSource(seed*1000003 + int64(len(args[0])) + int64(args[0][1])*131 + int64(args[0][2])*17)), thorough: args[2] == "thorough"}
	if !composed[args[0]] {
		g.boost = 3
	}
	f(g)

	g.stretch()

	// The accessors, on some of the messages
	for i, n := 0, len(g.recs); i < n; i++ {
		if r := g.recs[i]; r.op == "reg" && r.args[0] != "ra" && g.r.Intn(12) == 0 {
			g.emit("get", r.args...)
		}
	}

	outs := make([][]byte, len(g.recs))
	if args[0] == "P26" {
		evalConcurrent(g, outs)
	} else {
		for i, r := range g.recs {
			outs[i] = record(r.op, r.args, Eval(r.op, r.args))
		}
	}
	for s := 0; s < shards; s++ {
		w, err := os.Create(filepath.Join(args[4], fmt.Sprintf("trace_%d.ndjson", s)))
		if err != nil {
			return err
		}
		bw := bufio.NewWriterSize(w, 1<<20)
		for i := s * len(outs) / shards; i < (s+1)*len(outs)/shards; i++ {
			if _, err := bw.Write(outs[i]); err != nil {
				return err
			}
		}
		if err := bw.Flush(); err != nil {
			return err
		}
		if err := w.Close(); err != nil {
			return err
		}
	}
	counts := map[string]int{}
	for _, r := range g.recs {
		counts[r.op]++
	}
	ops := []string{}
	for o := range counts {
		ops = append(ops, o)
	}
	sort.Strings(ops)
	for _, o := range ops {
		fmt.Printf("%s %d\n", o, counts[o])
	}
	return nil
}

// evalConcurrent executes all the operations from several goroutines running at the same time. Each one walks a part of
// the records in its own order, so that the same kinds of operations overlap in time.
func evalConcurrent(g *gen, outs [][]byte) {
	const workers = 16
	orders := make([][]int, workers)
	for i := range g.recs {
		orders[i%workers] = append(orders[i%workers], i)
	}
	for _, o := range orders {
		g.r.Shuffle(len(o), func(a, b int) { o[a], o[b] = o[b], o[a] })
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(order []int) {
			defer wg.Done()
			<-start
			for k, i := range order {
				// Between the call and the examination of its result another call is made
				between := func() {
					o := g.recs[order[(k*7+1)%len(order)]]
					if k%3 == 0 { // a call of the same kind
						for d := 1; d < 200; d++ {
							if c := g.recs[order[(k+d)%len(order)]]; c.op == g.recs[i].op && (len(c.args) < 2 || fmt.Sprint(c.args[0]) == fmt.Sprint(g.recs[i].args[0])) {
								o = c
								break
							}
						}
					}
					Eval(o.op, o.args)
				}
				if k%8 == 5 {
					outs[i] = record(g.recs[i].op, g.recs[i].args, together(g.recs[i].op, g.recs[i].args))
					continue
				}
				outs[i] = record(g.recs[i].op, g.recs[i].args, evalBetween(g.recs[i].op, g.recs[i].args, between))
			}
		}(orders[w])
	}
	close(start)
	wg.Wait()
}

// scanMain executes the calls of all the families, by several callers, twice, in different orders; then, in another process
// (reverse), once in the reverse order. What stops, changes its octets, or does not answer the same each time is written, to
// be decided as the other records.
func scanMain(args []string) error {
	if len(args) != 5 {
		return fmt.Errorf("scan <seed> <tier> <file> <answers> first|reverse")
	}
	seed, err := strconv.ParseInt(args[0], 10, 64)
	if err != nil {
		return err
	}
	r := rand.New(rand.NewSource(seed))
	thorough := args[1] == "thorough"
	most := 150000
	if thorough {
		most = 4000000
	}
	reverse := args[4] == "reverse"
	// The answer of each call, from the first process
	known := map[uint64]uint64{}
	var told []byte
	if reverse {
		b, err := ioutil.ReadFile(args[3])
		if err != nil {
			return err
		}
		for i := 0; i+16 <= len(b); i += 16 {
			known[binary.LittleEndian.Uint64(b[i:])] = binary.LittleEndian.Uint64(b[i+8:])
		}
	}
	names := []string{}
	for f := range families {
		if f != "P26" {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	n := 0
	var odd []byte
	found := 0
	// The calls of the next families are prepared while those of one of them are executed
	ready := make([]chan *gen, len(names))
	gens := make([]*gen, len(names))
	for k, f := range names {
		ready[k] = make(chan *gen, 1)
		gens[k] = &gen{r: rand.New(rand.NewSource(r.Int63())), thorough: thorough}
		if !composed[f] {
			gens[k].boost = 3
		}
	}
	ahead := make(chan struct{}, 4)
	go func() {
		for k, f := range names {
			ahead <- struct{}{}
			go func(g *gen, f string, k int) {
				families[f](g)
				g.sample(most)
				g.siblings(rand.New(rand.NewSource(seed)))
				ready[k] <- g
			}(gens[k], f, k)
		}
	}()
	for k := range names {
		g := <-ready[k]
		gens[k] = nil
		<-ahead
		n += len(g.recs)
		keys, hashes := make([]uint64, len(g.recs)), make([]uint64, len(g.recs))
		order := make([]int, len(g.recs))
		for i := range order {
			order[i] = i
			if reverse {
				order[i] = len(order) - 1 - i
			}
		}
		var mu sync.Mutex
		hash := func(line []byte) uint64 {
			h := fnv.New64a()
			if _, err := h.Write(line); err != nil {
				panic(err)
			}
			return h.Sum64()
		}
		pass := func(second bool) {
			const workers = 8
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func(mine []int) {
					defer wg.Done()
					for _, i := range mine {
						r := g.recs[i]
						out := Eval(r.op, r.args)
						line := record(r.op, r.args, out)
						key, answer := hash(record(r.op, r.args, nil)), hash(line)
						differs := second && answer != hashes[i]
						if reverse {
							before, ok := known[key]
							differs = ok && before != answer
						}
						if differs || out[0] == "PANIC" || out[0] == "MUT" {
							again := record(r.op, r.args, Eval(r.op, r.args))
							mu.Lock()
							if found++; found < 500 {
								odd = append(append(odd, line...), again...)
							}
							mu.Unlock()
						}
						keys[i], hashes[i] = key, answer
					}
				}(order[w*len(order)/workers : (w+1)*len(order)/workers])
			}
			wg.Wait()
		}
		pass(false)
		if reverse {
			continue
		}
		rand.New(rand.NewSource(seed)).Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
		pass(true)
		for i := range keys {
			var b [16]byte
			binary.LittleEndian.PutUint64(b[:], keys[i])
			binary.LittleEndian.PutUint64(b[8:], hashes[i])
			told = append(told, b[:]...)
		}
	}
	if !reverse {
		if err := ioutil.WriteFile(args[3], told, 0644); err != nil {
			return err
		}
	}
	fmt.Println(n)
	return ioutil.WriteFile(args[2], odd, 0644)
}

// positions are the operations whose parameters are all numbers: codes, flags and coordinates
var positions = map[string]bool{"air": true, "surf": true, "airl": true, "surfl": true, "dist": true}

// siblings adds, after some of the calls, one that differs from it by one parameter only, and by little
func (g *gen) siblings(r *rand.Rand) {
	recs := make([]rec, 0, len(g.recs)*3/2)
	for _, c := range g.recs {
		recs = append(recs, c)
		if len(c.args) == 0 || r.Intn(4) > 0 {
			continue
		}
		args := append(tuple{}, c.args...)
		j := r.Intn(len(args))
		switch x := args[j].(type) {
		case []byte:
			if len(x) != 7 && len(x) != 14 {
				continue
			}
			b := clone(x)
			p := 5 + r.Intn(8*len(b)-5) // the format stays the same
			b[p/8] ^= 0x80 >> uint(p%8)
			args[j] = b
		case int64:
			switch {
			case positions[c.op] && (c.op == "dist" || x > 200000 || x < 0 || j > 4):
				args[j] = x + int64(r.Intn(2000001)-1000000)>>uint(r.Intn(20))
			case positions[c.op] && x > 1:
				args[j] = x ^ 1<<uint(r.Intn(17))
			case positions[c.op], c.op == "adsb" && j > 0, c.op == "integ" && j > 0:
				if x != 0 && x != 1 {
					continue
				}
				args[j] = 1 - x
			default:
				continue
			}
		default:
			continue
		}
		recs = append(recs, rec{c.op, args})
	}
	g.recs = recs
}

// ---------------------------------------------------------------------------------------------------------------------
// Bits

func clone(b []byte) []byte { return append([]byte{}, b...) }

// put writes the value v in the bits s..e (numbered from 1)
func put(b []byte, s, e int, v uint64) {
	for i := e; i >= s; i-- {
		m := byte(1) << uint(7-(i-1)%8)
		if v&1 != 0 {
			b[(i-1)/8] |= m
		} else {
			b[(i-1)/8] &^= m
		}
		v >>= 1
	}
}

func get(b []byte, s, e int) uint64 {
	v := uint64(0)
	for i := s; i <= e; i++ {
		v = v<<1 | uint64(b[(i-1)/8]>>uint(7-(i-1)%8)&1)
	}
	return v
}

func (g *gen) random(n int) []byte {
	b := make([]byte, n)
	g.r.Read(b)
	return b
}

// sparse gives octets with few bits set, or few bits cleared
func (g *gen) sparse(n int) []byte {
	b := make([]byte, n)
	for k := g.r.Intn(8); k > 0; k-- {
		p := g.r.Intn(8 * n)
		b[p/8] |= 1 << uint(p%8)
	}
	if g.r.Intn(4) == 0 {
		for i := range b {
			b[i] = ^b[i]
		}
	}
	return b
}

// A field is a range of bits, with an optional bit of status
type field struct{ status, s, e int }

// A layout describes the messages given to an operation
type format struct {
	n       int // number of octets
	fix     func(b []byte)
	fields  []field
	reserve []field // bits at zero in the messages
}

func none([]byte) {}

// sweep emits messages of a format: all the values of each field, all the values of sliding windows, pairs of bits,
// random messages
func (g *gen) sweep(f format, weight int, emit func(b []byte)) {
	fix := f.fix
	if fix == nil {
		fix = none
	}
	clear := func(b []byte) {
		for _, r := range f.reserve {
			put(b, r.s, r.e, 0)
		}
	}
	out := func(b []byte) { fix(b); emit(b) }

	// Fields
	for _, fd := range f.fields {
		width := fd.e - fd.s + 1
		values := []uint64{}
		if width <= 13 {
			for v := uint64(0); v < 1<<uint(width); v++ {
				values = append(values, v)
			}
		} else {
			max := uint64(1)<<uint(width) - 1
			for v := uint64(0); v < 24; v++ {
				values = append(values, v, max-v)
			}
			for k := 0; k < width; k++ {
				values = append(values, 1<<uint(k), max&^(1<<uint(k)))
			}
			for k := 0; k < g.n(150, 1500); k++ {
				values = append(values, g.r.Uint64()&max)
			}
		}
		for _, v := range values {
			b := make([]byte, f.n)
			if fd.status != 0 {
				put(b, fd.status, fd.status, 1)
			}
			put(b, fd.s, fd.e, v)
			out(b)
			b = g.random(f.n)
			clear(b)
			if fd.status != 0 && g.r.Intn(4) > 0 {
				put(b, fd.status, fd.status, 1)
			}
			put(b, fd.s, fd.e, v)
			out(b)
		}
	}

	// Windows of 8 bits
	bits := 8 * f.n
	bases := [][]byte{make([]byte, f.n), g.random(f.n)}
	for k := 0; k < g.n(2, 8); k++ {
		bases = append(bases, g.random(f.n))
	}
	clear(bases[1])
	for _, base := range bases {
		for s := 1; s+7 <= bits; s += 4 {
			for v := uint64(0); v < 256; v++ {
				b := clone(base)
				put(b, s, s+7, v)
				out(b)
			}
		}
	}

	// One and two bits
	for i := 1; i <= bits; i++ {
		for j := i; j <= bits; j++ {
			b := make([]byte, f.n)
			put(b, i, i, 1)
			put(b, j, j, 1)
			out(b)
			if g.thorough {
				b = clone(bases[1])
				b[(i-1)/8] ^= 1 << uint(7-(i-1)%8)
				b[(j-1)/8] ^= 1 << uint(7-(j-1)%8)
				out(b)
			}
		}
	}

	// Two fields: their values at the ends and in the middle of their ranges, or all of them when they are small
	for i, one := range f.fields {
		for _, two := range f.fields[:i] {
			if one.s <= two.e && two.s <= one.e {
				continue
			}
			for _, v := range marks(one.e - one.s + 1) {
				for _, w := range marks(two.e - two.s + 1) {
					b := make([]byte, f.n)
					if g.r.Intn(2) == 0 {
						b = g.random(f.n)
						clear(b)
					}
					for _, st := range []int{one.status, two.status} {
						if st != 0 {
							put(b, st, st, 1)
						}
					}
					put(b, one.s, one.e, v)
					put(b, two.s, two.e, w)
					out(b)
				}
			}
		}
	}

	// Random
	for k := 0; k < g.n(8000, 60000)*weight; k++ {
		b := g.random(f.n)
		if k%4 != 0 {
			clear(b)
		}
		out(b)
		b = g.sparse(f.n)
		out(b)
	}

	// Random, with some of the fields only: coherent messages
	if len(f.fields) > 0 {
		for k := 0; k < g.n(20000, 200000)*weight; k++ {
			b := make([]byte, f.n)
			max := 1 + g.r.Intn(4)
			for _, fd := range f.fields {
				if g.r.Intn(max) != 0 {
					continue
				}
				if fd.status != 0 {
					put(b, fd.status, fd.status, 1)
				}
				put(b, fd.s, fd.e, g.value(fd.e-fd.s+1))
			}
			out(b)
		}
	}
}

// marks gives the values of a field of some bits where something may change
func marks(width int) (r []uint64) {
	max := uint64(1)<<uint(width) - 1
	if width <= 4 {
		for v := uint64(0); v <= max; v++ {
			r = append(r, v)
		}
		return r
	}
	r = []uint64{0, max, max - 1, max - 2}
	for v := uint64(1); v <= max; v <<= 1 {
		r = append(r, v, v+1)
	}
	return r
}

// value chooses a value of a field, often near the ends of ranges
func (g *gen) value(width int) uint64 {
	max := uint64(1)<<uint(width) - 1
	switch g.r.Intn(6) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return uint64(g.r.Intn(4)) & max
	case 3: // small
		return g.r.Uint64() & (max >> uint(g.r.Intn(width)))
	case 4: // small negative
		return max - g.r.Uint64()&(max>>uint(g.r.Intn(width)))
	}
	return g.r.Uint64() & max
}

// lengths emits data of all the lengths of 0 to 20 octets but one
func (g *gen) lengths(emit func(b []byte)) {
	for n := 0; n <= 20; n++ {
		for k := 0; k < g.n(8, 60); k++ {
			emit(g.random(n))
		}
		emit(make([]byte, n))
	}
}

// longer gives the same octets cut, or followed by others: a multiple of the length, 256 or 65536 more, ...
func (g *gen) longer(b []byte, huge bool) []byte {
	n := len(b)
	m := []int{n - 1, n + 1, n + 7, 2 * n, 3 * n, 4 * n, 8 * n, n + 32, n + 64, n + 128, n + 249, n + 256, n + 256, n + 263, n + 512, n * 16, g.r.Intn(n), n + 1 + g.r.Intn(40)}[g.r.Intn(18)]
	if huge {
		m = n + []int{65536, 32768, 131072}[g.r.Intn(3)]
	}
	r := make([]byte, m)
	how := g.r.Intn(3)
	for i := range r {
		if i < n {
			r[i] = b[i]
		} else if how == 1 {
			r[i] = b[i%n]
		} else if how == 2 {
			r[i] = byte(g.r.Intn(256))
		}
	}
	return r
}

// stretch gives to the readers octets that begin as a message that they read, but are less or more
func (g *gen) stretch() {
	kinds := map[string][]rec{}
	names := []string{}
	for _, i := range g.r.Perm(len(g.recs)) {
		r := g.recs[i]
		key := r.op
		if k, ok := r.args[0].(string); ok {
			key += k
		}
		if kinds[key] == nil {
			names = append(names, key)
		}
		kinds[key] = append(kinds[key], r)
	}
	sort.Strings(names)
	for _, key := range names {
		number := g.n(160, 1500)
		for k, r := range kinds[key] {
			if k >= number {
				break
			}
			var b []byte
			if first, ok := r.args[0].([]byte); ok && (r.op == "crc" || r.op == "rcv") && len(first) > 0 {
				b = first
			} else if last, ok := r.args[len(r.args)-1].([]byte); ok && len(last) > 0 {
				b = last
			} else {
				continue
			}
			b = g.longer(b, k < 3)
			switch r.op {
			case "crc", "rcv":
				g.emit(r.op, append(tuple{b}, r.args[1:]...)...)
			case "class", "hdr", "raw", "alt", "idn":
				g.emit("class", b)
			case "reg":
				g.emit("rlen", r.args[0], b)
			case "adsb", "integ":
				g.emit("adsblen", r.args[0], b)
			case "commb", "commbv":
				g.emit("commblen", b)
			case "direct":
				g.emit("direct", r.args[0], r.args[1], r.args[2], r.args[3], b)
			case "parse":
				if len(b) > 3 { // the parts of a frame are cut by the driver
					g.emit("parse", r.args[0], b)
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------------
// Frames

var shortFormats = []int{0, 4, 5, 11}
var longFormats = []int{16, 17, 18, 19, 20, 21, 24, 25, 26, 27, 28, 29, 30, 31}

func dfLength(df int) int {
	if df >= 16 {
		return 14
	}
	return 7
}

func (g *gen) frame(df int) []byte {
	b := g.random(dfLength(df))
	put(b, 1, 5, uint64(df))
	return b
}

func withAltitude(df int) bool { return df == 0 || df == 4 || df == 16 || df == 20 }

// legal makes the altitude of a frame legal (25 feet increments) unless k is 0
func (g *gen) legal(b []byte) {
	put(b, 28, 28, 1)
	put(b, 26, 26, 0)
}

func genClass(g *gen) {
	for _, b := range recorded() {
		g.emit("class", b)
	}
	// All the formats in all the lengths
	for n := 0; n <= 20; n++ {
		for df := 0; df < 32; df++ {
			for k := 0; k < g.n(12, 60); k++ {
				b := g.random(n)
				if k == 0 {
					b = make([]byte, n)
				}
				if n > 0 {
					b[0] = byte(df<<3 | g.r.Intn(8))
				}
				if n >= 4 && k%2 == 1 {
					g.legal(b)
				}
				g.emit("class", b)
			}
		}
	}
	// All the first octets with all the altitude codes that are illegal or not
	for _, df := range append(append([]int{}, shortFormats...), longFormats...) {
		for ff := 0; ff < 8; ff++ {
			for k := 0; k < g.n(100, 1500); k++ {
				b := g.frame(df)
				put(b, 6, 8, uint64(ff))
				if k%2 == 0 {
					put(b, 26, 26, 0)
					put(b, 28, 28, 0)
				}
				g.emit("class", b)
			}
		}
	}
	// All the codes
	for _, df := range []int{0, 4, 16, 20, 5, 21, 17} {
		for ac := 0; ac < 8192; ac++ {
			if !g.thorough && ac%3 != int(g.r.Int31n(3)) {
				continue
			}
			b := g.frame(df)
			put(b, 20, 32, uint64(ac))
			g.emit("class", b)
		}
	}
}

func genHeader(g *gen) {
	for _, df := range append(append([]int{}, shortFormats...), longFormats...) {
		df := df
		fs := []field{{0, 6, 8}, {0, 9, 13}, {0, 14, 17}, {0, 18, 19}, {0, 9, 11}, {0, 9, 16}, {0, 17, 24}, {0, 25, 32}}
		if withAltitude(df) || df == 5 || df == 21 {
			fs = []field{{0, 6, 8}, {0, 9, 13}, {0, 14, 17}, {0, 18, 19}, {0, 9, 11}, {0, 9, 16}}
		}
		g.sweep(format{n: dfLength(df), fields: fs, fix: func(b []byte) {
			put(b, 1, 5, uint64(df))
			if withAltitude(df) {
				// The illegal altitudes are examined elsewhere
				g.legal(b)
			}
		}}, 1, func(b []byte) {
			g.emit("hdr", b)
			if g.r.Intn(8) == 0 {
				g.emit("raw", b)
			}
		})
		for k := 0; k < g.n(300, 3000); k++ { // the octets that are kept, whatever they are
			b := g.random(dfLength(df))
			put(b, 1, 5, uint64(df))
			if k%4 > 0 && withAltitude(df) {
				g.legal(b)
			}
			g.emit("raw", b)
		}
	}
	if !g.thorough {
		g.sample(600000)
	}
}

// sample keeps at most n of the records
func (g *gen) sample(n int) {
	if len(g.recs) <= n {
		return
	}
	g.r.Shuffle(len(g.recs), func(a, b int) { g.recs[a], g.recs[b] = g.recs[b], g.recs[a] })
	g.recs = g.recs[:n]
}

func genAltitude(g *gen) {
	for _, df := range []int{0, 4, 16, 20} {
		for ac := 0; ac < 8192; ac++ {
			for k := 0; k < g.n(2, 6); k++ {
				b := g.frame(df)
				if k == 0 {
					b = make([]byte, dfLength(df))
					put(b, 1, 5, uint64(df))
				}
				put(b, 20, 32, uint64(ac))
				g.emit("alt", b)
			}
		}
	}
}

func genIdentity(g *gen) {
	for _, df := range []int{5, 21} {
		for id := 0; id < 8192; id++ {
			for k := 0; k < g.n(3, 8); k++ {
				b := g.frame(df)
				if k == 0 {
					b = make([]byte, dfLength(df))
					put(b, 1, 5, uint64(df))
				}
				put(b, 20, 32, uint64(id))
				g.emit("idn", b)
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------------
// Parity

func parity(data []byte) uint32 {
	r := uint32(0)
	for _, o := range data {
		r ^= uint32(o) << 16
		for i := 0; i < 8; i++ {
			r <<= 1
			if r&0x1000000 != 0 {
				r ^= 0x1FFF409
			}
		}
	}
	return r & 0xFFFFFF
}

// seal writes the parity, overlaid with a
func seal(b []byte, a uint32) []byte {
	n := len(b)
	p := parity(b[:n-3]) ^ a
	b[n-3], b[n-2], b[n-1] = byte(p>>16), byte(p>>8), byte(p)
	return b
}

func genCrc(g *gen) {
	set := func(vs ...uint32) tuple {
		r := tuple{}
		for _, v := range vs {
			r = append(r, int64(v))
		}
		return r
	}
	addr := func() uint32 {
		if g.r.Intn(8) == 0 {
			return uint32(g.r.Intn(80))
		}
		return uint32(g.r.Intn(1 << 24))
	}
	formats := append(append([]int{}, shortFormats...), longFormats...)
	sealed := func(df int) ([]byte, uint32) {
		b := g.frame(df)
		if withAltitude(df) {
			g.legal(b)
		}
		a := addr()
		switch df {
		case 17, 18:
			a = 0
		case 11:
			a = uint32(g.r.Intn(80))
		}
		return seal(b, a), a
	}
	filters := func(b []byte, a uint32) {
		near := a ^ 1<<uint(g.r.Intn(24))
		aa := uint32(get(b, 9, 32))
		switch g.r.Intn(8) {
		case 0:
			g.emit("crc", b, set(), set())
		case 1:
			g.emit("crc", b, set(a), set())
		case 2:
			g.emit("crc", b, set(), set(a))
		case 3:
			g.emit("crc", b, set(near, addr()), set(addr()))
		case 4:
			g.emit("crc", b, set(addr(), a, addr()), set(near))
		case 5:
			g.emit("crc", b, set(near), set(a, addr()))
		case 6:
			g.emit("crc", b, set(aa), set(aa))
		case 7:
			g.emit("crc", b, set(near), set(near))
		}
	}
	for _, df := range formats {
		for k := 0; k < g.n(400, 6000); k++ {
			b, a := sealed(df)
			filters(b, a)
			// damaged
			d := clone(b)
			for f := 1 + g.r.Intn(5); f > 0; f-- {
				p := 5 + g.r.Intn(8*len(b)-5)
				d[p/8] ^= 1 << uint(7-p%8)
			}
			filters(d, a)
			// burst of up to 24 bits
			d = clone(b)
			l := 1 + g.r.Intn(24)
			p := 5 + g.r.Intn(8*len(b)-5-l)
			for i := 0; i <= l; i++ {
				if i == 0 || i == l || g.r.Intn(2) == 0 {
					d[(p+i-1)/8] ^= 1 << uint(7-(p+i-1)%8)
				}
			}
			filters(d, a)
			// not sealed at all
			filters(g.frame(df), a)
		}
		// All the single errors
		for k := 0; k < g.n(3, 30); k++ {
			b, a := sealed(df)
			for p := 0; p < 8*len(b); p++ {
				d := clone(b)
				d[p/8] ^= 1 << uint(7-p%8)
				g.emit("crc", d, set(), set())
				if k == 0 {
					g.emit("crc", d, set(a), set(a))
				}
			}
		}
	}
	// All the double errors of one extended squitter
	for _, df := range []int{17, 18} {
		b, _ := sealed(df)
		for p := 0; p < 112; p++ {
			for q := p + 1; q < 112; q++ {
				d := clone(b)
				d[p/8] ^= 1 << uint(7-p%8)
				d[q/8] ^= 1 << uint(7-q%8)
				g.emit("crc", d, set(), set())
			}
		}
	}
	// Residuals at zero, addresses zero, zero content
	for _, df := range formats {
		b := make([]byte, dfLength(df))
		put(b, 1, 5, uint64(df))
		if withAltitude(df) {
			g.legal(b)
		}
		g.emit("crc", clone(b), set(), set())
		g.emit("crc", seal(clone(b), 0), set(0), set(0))
		g.emit("crc", seal(clone(b), 0), set(1), set(1))
		g.emit("crc", seal(clone(b), 0xFFFFFF), set(0xFFFFFF), set(0xFFFFFF))
	}
}

// ---------------------------------------------------------------------------------------------------------------------
// ADS-B

func fixTC(tcs ...int) func(g *gen) func(b []byte) {
	return func(g *gen) func(b []byte) {
		return func(b []byte) { put(b, 1, 5, uint64(tcs[g.r.Intn(len(tcs))])) }
	}
}

var airborneTypes = []int{9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22}

func genRouting(g *gen) {
	for _, b := range recorded() {
		if len(b) == 14 && b[0]>>3 == 17 {
			g.emit("adsb", g.v3(), g.bool_(), g.bool_(), b[4:11])
		}
	}
	for v := 0; v <= 2; v++ {
		for tc := 0; tc < 32; tc++ {
			for st := 0; st < 8; st++ {
				for k := 0; k < g.n(40, 600); k++ {
					b := g.random(7)
					switch k % 4 {
					case 1:
						b = make([]byte, 7)
					case 2:
						b = g.sparse(7)
					}
					put(b, 1, 5, uint64(tc))
					put(b, 6, 8, uint64(st))
					switch tc {
					case 31:
						if k%2 == 0 {
							g.validOp(b)
						}
					case 28:
						if st == 0 && k%2 == 0 {
							put(b, 12, 56, 0)
						}
						if st == 1 && k%2 == 0 {
							put(b, 25, 56, 0)
						}
					case 29:
						if k%2 == 0 {
							put(b, 47, 51, 0)
						}
					case 0:
						if k%2 == 0 {
							put(b, 21, 56, 0)
						}
						if k%8 == 3 {
							put(b, 21, 56, uint64(1)<<uint(g.r.Intn(36)))
						}
						if k > 4 {
							put(b, 16, 16, 1)
						}
					}
					g.emit("adsbtype", int64(v), int64(g.r.Intn(2)), int64(g.r.Intn(2)), b)
				}
			}
		}
	}
	// Unknown versions
	for v := 3; v < 8; v++ {
		for tc := 0; tc < 32; tc++ {
			b := g.random(7)
			put(b, 1, 5, uint64(tc))
			g.emit("adsbtype", int64(v), int64(0), int64(0), b)
		}
	}
	// The limit between "no position" and the position of type 0
	for p := 9; p <= 56; p++ {
		for q := p; q <= 56; q++ {
			b := make([]byte, 7)
			put(b, 16, 16, 1)
			put(b, p, p, 1)
			put(b, q, q, 1)
			g.emit("adsbtype", int64(g.r.Intn(3)), int64(0), int64(0), b)
		}
	}
	g.lengths(func(b []byte) {
		if len(b) > 0 {
			put(b, 1, 5, uint64(g.r.Intn(32)))
		}
		g.emit("adsbtype", int64(g.r.Intn(3)), int64(0), int64(0), b)
	})
}

// validOp clears the reserved bits of an operational status
func (g *gen) validOp(b []byte) {
	v := g.r.Intn(4)
	put(b, 41, 43, uint64(v))
	switch v {
	case 0:
		put(b, 41, 56, 0)
	case 1:
		for _, p := range []int{9, 10, 13, 14, 25, 26, 49, 50, 55, 56} {
			put(b, p, p, 0)
		}
	case 2:
		for _, p := range []int{9, 10, 25, 26, 56} {
			put(b, p, p, 0)
		}
	}
}

func (g *gen) v3() int64    { return int64(g.r.Intn(3)) }
func (g *gen) bool_() int64 { return int64(g.r.Intn(2)) }

func genAirborne(g *gen) {
	fs := []field{{0, 6, 7}, {0, 8, 8}, {0, 9, 20}, {0, 21, 21}, {0, 22, 22}, {0, 23, 39}, {0, 40, 56}}
	legal := 0
	fix := func(tcs []int) func(b []byte) {
		return func(b []byte) {
			put(b, 1, 5, uint64(tcs[g.r.Intn(len(tcs))]))
			legal++
			if legal%3 != 0 {
				put(b, 16, 16, 1)
			}
		}
	}
	g.sweep(format{n: 7, fields: fs, fix: fix(airborneTypes)}, 2, func(b []byte) {
		g.emit("adsb", g.v3(), g.bool_(), g.bool_(), b)
		if g.r.Intn(3) == 0 {
			g.emit("reg", "bds05", clone(b))
		}
	})
	g.sweep(format{n: 7, fields: fs, fix: fix([]int{0})}, 1, func(b []byte) {
		if g.r.Intn(3) == 0 {
			put(b, 21, 56, 0)
		}
		g.emit("adsb", g.v3(), g.bool_(), g.bool_(), b)
	})
	// All the altitudes
	for ac := 0; ac < 4096; ac++ {
		for _, tc := range []int{0, airborneTypes[g.r.Intn(len(airborneTypes))]} {
			b := g.random(7)
			put(b, 1, 5, uint64(tc))
			put(b, 9, 20, uint64(ac))
			if tc == 0 && g.r.Intn(2) == 0 {
				put(b, 21, 56, 0)
			}
			g.emit("adsb", g.v3(), g.bool_(), g.bool_(), b)
		}
	}
	// The other types
	for tc := 0; tc < 32; tc++ {
		for k := 0; k < 20; k++ {
			b := g.random(7)
			put(b, 1, 5, uint64(tc))
			g.emit("reg", "bds05", b)
		}
	}
	g.lengths(func(b []byte) { g.emit("rlen", "bds05", b) })
}

func genIntegrity(g *gen) {
	tcs := append([]int{0, 5, 6, 7, 8}, airborneTypes...)
	for _, tc := range tcs {
		for v := int64(0); v <= 2; v++ {
			for a := int64(0); a < 2; a++ {
				for c := int64(0); c < 2; c++ {
					for st := 0; st < 8; st++ {
						for k := 0; k < g.n(40, 400); k++ {
							b := g.random(7)
							if k == 0 {
								b = make([]byte, 7)
							}
							put(b, 1, 5, uint64(tc))
							put(b, 6, 8, uint64(st))
							if k%4 != 3 {
								put(b, 16, 16, 1)
							}
							if tc == 0 && k%2 == 0 {
								put(b, 21, 56, 0)
							}
							g.emit("integ", v, a, c, b)
						}
					}
				}
			}
		}
	}
}

func genSurface(g *gen) {
	fs := []field{{0, 6, 12}, {0, 13, 13}, {0, 14, 20}, {13, 14, 20}, {0, 21, 21}, {0, 22, 22}, {0, 23, 39}, {0, 40, 56}}
	g.sweep(format{n: 7, fields: fs, fix: func(b []byte) { put(b, 1, 5, uint64(5+g.r.Intn(4))) }}, 2, func(b []byte) {
		g.emit("adsb", g.v3(), g.bool_(), g.bool_(), b)
		if g.r.Intn(3) == 0 {
			g.emit("reg", "bds06", clone(b))
		}
	})
	for tc := 0; tc < 32; tc++ {
		for k := 0; k < 20; k++ {
			b := g.random(7)
			put(b, 1, 5, uint64(tc))
			g.emit("reg", "bds06", b)
		}
	}
	g.lengths(func(b []byte) { g.emit("rlen", "bds06", b) })
}

var charFields = []field{{0, 6, 8}, {0, 9, 14}, {0, 15, 20}, {0, 21, 26}, {0, 27, 32}, {0, 33, 38}, {0, 39, 44}, {0, 45, 50}, {0, 51, 56}}

// letters fills the characters with legal ones (mostly)
func (g *gen) letters(b []byte) {
	for k := 1; k <= 8; k++ {
		c := 1 + g.r.Intn(26)
		switch g.r.Intn(12) {
		case 0, 1, 2, 3:
			c = 48 + g.r.Intn(10)
		case 4, 5:
			c = 32
		case 6:
			c = []int{0, 27, 26, 31, 33, 47, 58, 63, 48, 57, 1}[g.r.Intn(11)]
		}
		put(b, 3+6*k, 8+6*k, uint64(c))
	}
}

func genIdent(g *gen) {
	g.sweep(format{n: 7, fields: charFields, fix: func(b []byte) { put(b, 1, 5, uint64(1+g.r.Intn(4))) }}, 1, func(b []byte) {
		if g.r.Intn(2) == 0 {
			g.emit("reg", "bds08", b)
		} else {
			g.emit("adsb", g.v3(), g.bool_(), g.bool_(), b)
		}
	})
	g.sweep(format{n: 7, fields: charFields, fix: func(b []byte) { b[0] = 0x20 }}, 1, func(b []byte) { g.emit("reg", "bds20", b) })
	for k := 0; k < g.n(15000, 200000); k++ {
		b := make([]byte, 7)
		g.letters(b)
		put(b, 1, 8, uint64(g.r.Intn(40)))
		if g.r.Intn(2) == 0 {
			b[0] = 0x20
			g.emit("reg", "bds20", b)
		} else {
			g.emit("reg", "bds08", b)
		}
	}
	for o := 0; o < 256; o++ {
		for k := 0; k < 8; k++ {
			b := g.random(7)
			b[0] = byte(o)
			g.letters(b)
			g.emit("reg", "bds08", b)
			g.emit("reg", "bds20", clone(b))
		}
	}
	g.lengths(func(b []byte) { g.emit("rlen", "bds08", b); g.emit("rlen", "bds20", clone(b)) })
}

func genVelocity(g *gen) {
	ground := []field{{0, 9, 9}, {0, 10, 10}, {0, 11, 13}, {0, 14, 24}, {0, 25, 35}, {0, 36, 36}, {0, 37, 46}, {0, 49, 56}, {14, 15, 24}, {37, 38, 46}, {49, 50, 56}}
	names := []string{"", "bds09gn", "bds09gs", "bds09an", "bds09as"}
	for st := 1; st <= 4; st++ {
		st := st
		g.sweep(format{n: 7, fields: ground, fix: func(b []byte) { put(b, 1, 8, uint64(19*8+st)) }}, 1, func(b []byte) {
			switch g.r.Intn(4) {
			case 0:
				g.emit("adsb", g.v3(), g.bool_(), g.bool_(), b)
			case 1:
				g.emit("reg", names[st], b)
			default:
				g.emit("reg", "bds09", b)
			}
			if st <= 2 {
				g.emit("gs", clone(b))
			}
		})
	}
	// Speeds and tracks in all directions
	for k := 0; k < g.n(20000, 200000); k++ {
		b := g.random(7)
		put(b, 1, 8, uint64(19*8+1+g.r.Intn(2)))
		put(b, 15, 24, g.value(10))
		put(b, 26, 35, g.value(10))
		g.emit("gs", b)
	}
	for tc := 0; tc < 32; tc++ {
		for st := 0; st < 8; st++ {
			for k := 0; k < 6; k++ {
				b := g.random(7)
				put(b, 1, 8, uint64(tc*8+st))
				g.emit("reg", append(names, "bds09")[1+g.r.Intn(5)], b)
			}
		}
	}
	g.lengths(func(b []byte) {
		for _, n := range append(names[1:], "bds09") {
			g.emit("rlen", n, clone(b))
		}
	})
	if !g.thorough {
		g.sample(600000)
	}
}

func genStatus(g *gen) {
	fs := []field{{0, 6, 8}, {0, 9, 11}, {0, 12, 24}}
	raf := raFields(8)
	fix := func(zero int, st int) func(b []byte) {
		return func(b []byte) {
			put(b, 1, 8, uint64(28*8+st))
			if zero > 0 && g.r.Intn(3) > 0 {
				put(b, zero, 56, 0)
			}
		}
	}
	emit := func(sub string) func(b []byte) {
		return func(b []byte) {
			switch g.r.Intn(3) {
			case 0:
				g.emit("adsb", g.v3(), g.bool_(), g.bool_(), b)
			case 1:
				g.emit("reg", sub, b)
			default:
				g.emit("reg", "bds61", b)
			}
		}
	}
	g.sweep(format{n: 7, fields: fs, fix: fix(12, 0)}, 1, emit("bds61n"))
	g.sweep(format{n: 7, fields: fs, fix: fix(25, 1)}, 1, emit("bds61e"))
	g.sweep(format{n: 7, fields: raf, fix: fix(0, 2)}, 1, emit("bds61a"))
	for tc := 0; tc < 32; tc++ {
		for st := 0; st < 8; st++ {
			for k := 0; k < 12; k++ {
				b := g.random(7)
				if k%3 == 0 {
					put(b, 12, 56, 0)
				}
				if k%3 == 1 {
					put(b, 25, 56, 0)
				}
				put(b, 1, 8, uint64(tc*8+st))
				for _, n := range []string{"bds61", "bds61n", "bds61e", "bds61a"} {
					g.emit("reg", n, clone(b))
				}
			}
		}
	}
	g.lengths(func(b []byte) {
		for _, n := range []string{"bds61", "bds61n", "bds61e", "bds61a"} {
			g.emit("rlen", n, clone(b))
		}
	})
}

func genTarget(g *gen) {
	t0 := []field{{0, 8, 9}, {0, 10, 10}, {0, 12, 13}, {0, 14, 15}, {0, 16, 25}, {0, 26, 27}, {0, 28, 36}, {0, 37, 37}, {0, 38, 39}, {0, 40, 43}, {0, 44, 44}, {0, 45, 46}, {0, 52, 53}, {0, 54, 56}}
	t1 := []field{{0, 8, 8}, {0, 9, 9}, {0, 10, 20}, {0, 21, 29}, {30, 31, 39}, {0, 31, 39}, {0, 40, 43}, {0, 44, 44}, {0, 45, 46}, {0, 47, 47}, {0, 48, 54}, {0, 53, 56}}
	emit := func(sub string) func(b []byte) {
		return func(b []byte) {
			switch g.r.Intn(3) {
			case 0:
				g.emit("adsb", g.v3(), g.bool_(), g.bool_(), b)
			case 1:
				g.emit("reg", sub, b)
			default:
				g.emit("reg", "bds62", b)
			}
		}
	}
	g.sweep(format{n: 7, fields: t0, fix: func(b []byte) {
		put(b, 1, 7, 29*4)
		if g.r.Intn(8) > 0 {
			put(b, 47, 51, 0)
		}
	}}, 2, emit("bds62t0"))
	g.sweep(format{n: 7, fields: t1, fix: func(b []byte) { put(b, 1, 7, 29*4+1) }}, 2, emit("bds62t1"))
	for tc := 0; tc < 32; tc++ {
		for st := 0; st < 8; st++ {
			for k := 0; k < 12; k++ {
				b := g.random(7)
				if k%2 == 0 {
					put(b, 47, 51, 0)
				}
				put(b, 1, 8, uint64(tc*8+st))
				for _, n := range []string{"bds62", "bds62t0", "bds62t1"} {
					g.emit("reg", n, clone(b))
				}
			}
		}
	}
	g.lengths(func(b []byte) {
		for _, n := range []string{"bds62", "bds62t0", "bds62t1"} {
			g.emit("rlen", n, clone(b))
		}
	})
}

var opNames = []string{"bds65", "bds65v0", "bds65a1", "bds65a2", "bds65s1", "bds65s2"}

func genOperational(g *gen) {
	fs := []field{{0, 9, 16}, {0, 11, 12}, {0, 15, 20}, {0, 17, 24}, {0, 21, 24}, {0, 25, 32}, {0, 27, 32}, {0, 33, 40}, {0, 44, 48}, {0, 49, 56}}
	for _, st := range []int{0, 1} {
		for v := 0; v < 3; v++ {
			st, v := st, v
			if st == 1 && v == 0 {
				continue
			}
			name := map[int]string{0: "bds65v0", 10: "bds65s0", 1: "bds65a1", 2: "bds65a2", 11: "bds65s1", 12: "bds65s2"}[st*10+v]
			g.sweep(format{n: 7, fields: fs, fix: func(b []byte) {
				put(b, 1, 8, uint64(31*8+st))
				if g.r.Intn(5) > 0 {
					put(b, 41, 43, uint64(v))
					if v == 0 {
						put(b, 41, 56, 0)
					}
				}
				if g.r.Intn(8) > 0 {
					keep := get(b, 41, 43)
					res := []int{9, 10, 13, 14, 25, 26, 49, 50, 55, 56}
					if v == 2 {
						res = []int{9, 10, 25, 26, 56}
					}
					if v > 0 {
						for _, p := range res {
							put(b, p, p, 0)
						}
					}
					put(b, 41, 43, keep)
				}
			}}, 1, func(b []byte) {
				switch g.r.Intn(3) {
				case 0:
					g.emit("adsb", g.v3(), g.bool_(), g.bool_(), b)
				case 1:
					g.emit("reg", name, b)
				default:
					g.emit("reg", "bds65", b)
				}
			})
		}
	}
	for tc := 0; tc < 32; tc++ {
		for st := 0; st < 8; st++ {
			for k := 0; k < 12; k++ {
				b := g.random(7)
				g.validOp(b)
				put(b, 1, 8, uint64(tc*8+st))
				if k < 3 {
					put(b, 1, 5, 31)
				}
				for _, n := range opNames {
					g.emit("reg", n, clone(b))
				}
			}
		}
	}
	g.lengths(func(b []byte) {
		for _, n := range opNames {
			g.emit("rlen", n, clone(b))
		}
	})
}

// ---------------------------------------------------------------------------------------------------------------------
// Comm-B

var commbFormats = map[string]format{
	"bds10":   {n: 7, fix: func(b []byte) { b[0] = 0x10 }, reserve: []field{{0, 10, 14}}, fields: []field{{0, 9, 9}, {0, 15, 16}, {0, 17, 23}, {0, 24, 25}, {0, 26, 28}, {0, 29, 32}, {0, 33, 36}, {0, 37, 40}, {0, 41, 48}, {0, 49, 56}}},
	"bds17":   {n: 7, reserve: []field{{0, 30, 56}}, fields: []field{{0, 1, 8}, {0, 9, 16}, {0, 17, 24}, {0, 25, 32}}},
	"bds07":   {n: 7, reserve: []field{{0, 4, 56}}, fields: []field{{0, 1, 3}, {0, 1, 8}}},
	"bds20":   {n: 7, fix: func(b []byte) { b[0] = 0x20 }, fields: charFields},
	"bds30":   {n: 7, fix: func(b []byte) { b[0] = 0x30 }, fields: raFields(8)},
	"bds40":   {n: 7, reserve: []field{{0, 40, 47}, {0, 52, 53}}, fields: []field{{1, 2, 13}, {14, 15, 26}, {27, 28, 39}, {48, 49, 51}, {54, 55, 56}}},
	"bds44v1": {n: 7, reserve: []field{{0, 1, 4}}, fields: []field{{5, 6, 14}, {15, 16, 23}, {24, 25, 35}, {36, 37, 47}, {0, 48, 48}, {49, 50, 56}}},
	"bds44v2": {n: 7, reserve: []field{{0, 1, 1}}, fields: []field{{0, 1, 4}, {5, 6, 14}, {15, 16, 23}, {24, 25, 35}, {36, 37, 47}, {0, 48, 48}, {49, 50, 56}}},
	"bds44v0": {n: 7, reserve: []field{{0, 1, 1}}, fields: []field{{0, 1, 4}, {5, 6, 14}, {5, 15, 23}, {0, 24, 34}, {35, 36, 46}, {47, 48, 49}, {50, 51, 56}}},
	"bds45v0": {n: 7, reserve: []field{{0, 52, 56}}, fields: []field{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {10, 11, 12}, {13, 14, 15}, {16, 17, 26}, {27, 28, 38}, {39, 40, 51}}},
	"bds45v1": {n: 7, reserve: []field{{0, 55, 56}}, fields: []field{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {10, 11, 12}, {13, 14, 24}, {25, 26, 37}, {38, 39, 44}, {38, 45, 50}, {38, 51, 54}}},
	"bds50":   {n: 7, fields: []field{{1, 2, 11}, {12, 13, 23}, {24, 25, 34}, {35, 36, 45}, {46, 47, 56}}},
	"bds60":   {n: 7, fields: []field{{1, 2, 12}, {13, 14, 23}, {24, 25, 34}, {35, 36, 45}, {46, 47, 56}}},
}

func commbNames() []string {
	r := []string{}
	for n := range commbFormats {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func genCommB(g *gen) {
	for _, b := range recorded() {
		if len(b) == 14 && (b[0]>>3 == 20 || b[0]>>3 == 21) {
			g.emit("commb", b[4:11])
		}
	}
	g.emit("commb", make([]byte, 7))
	for _, n := range commbNames() {
		f := commbFormats[n]
		for k := 0; k < g.n(7000, 90000); k++ {
			b := make([]byte, 7)
			max := 1 + g.r.Intn(4)
			for _, fd := range f.fields {
				if g.r.Intn(max) != 0 {
					continue
				}
				if fd.status != 0 {
					put(b, fd.status, fd.status, 1)
				}
				put(b, fd.s, fd.e, g.value(fd.e-fd.s+1))
			}
			if f.fix != nil {
				f.fix(b)
			}
			if n == "bds20" && g.r.Intn(3) > 0 {
				g.letters(b)
			}
			if g.r.Intn(4) == 0 {
				p := g.r.Intn(56)
				b[p/8] ^= 1 << uint(p%8)
			}
			if g.r.Intn(4) == 0 {
				g.emit("commbv", b)
			} else {
				g.emit("commb", b)
			}
		}
	}
	g.sweep(format{n: 7}, 4, func(b []byte) { g.emit("commb", b) })
	g.lengths(func(b []byte) { g.emit("commblen", b) })
}

func (g *gen) registers(weight int, names ...string) {
	for _, n := range names {
		f := commbFormats[n]
		g.sweep(f, weight, func(b []byte) { g.emit("reg", n, b) })
	}
}

func genEhs(g *gen) {
	g.registers(1, "bds40", "bds50", "bds60")
	g.coherent("bds40", "bds50", "bds60")
	g.lengths(func(b []byte) {
		for _, n := range []string{"bds40", "bds50", "bds60"} {
			g.emit("rlen", n, clone(b))
		}
	})
}

// coherent emits pairs of values near the limits of coherency
func (g *gen) coherent(names ...string) {
	for _, n := range names {
		f := commbFormats[n]
		for k := 0; k < g.n(6000, 60000); k++ {
			b := make([]byte, 7)
			for _, fd := range f.fields {
				w := fd.e - fd.s + 1
				v := g.r.Uint64() & (1<<uint(w) - 1)
				switch g.r.Intn(4) {
				case 0:
					v >>= 1
				case 1:
					v >>= 2
				case 2:
					v = 0
				}
				// sign
				put(b, fd.s, fd.e, v)
				if v != 0 && g.r.Intn(3) == 0 {
					b[(fd.s-1)/8] ^= 1 << uint(7-(fd.s-1)%8)
				}
				if fd.status != 0 && (v != 0 || g.r.Intn(3) == 0) {
					put(b, fd.status, fd.status, 1)
				}
			}
			if f.fix != nil {
				f.fix(b)
			}
			for _, r := range f.reserve {
				put(b, r.s, r.e, 0)
			}
			g.emit("reg", n, b)
		}
	}
}

func genMeteo(g *gen) {
	names := []string{"bds44v0", "bds44v1", "bds44v2", "bds45v0", "bds45v1"}
	g.registers(1, names...)
	g.coherent(names...)
	for i := range g.recs {
		n := g.recs[i].args[0].(string)
		if (n[:5] == "bds45" || n == "bds44v1" || n == "bds44v2") && g.r.Intn(3) == 0 {
			g.recs[i].args[0] = n[:5]
		}
	}
	g.lengths(func(b []byte) {
		for _, n := range append(names, "bds44", "bds45") {
			g.emit("rlen", n, clone(b))
		}
	})
	if !g.thorough {
		g.sample(600000)
	}
}

func genCapability(g *gen) {
	g.registers(1, "bds10", "bds17", "bds07")
	for _, n := range []string{"bds10", "bds17", "bds07", "bds00"} {
		n := n
		g.sweep(format{n: 7}, 1, func(b []byte) {
			if g.r.Intn(2) == 0 {
				g.emit("reg", n, b)
			}
		})
		g.lengths(func(b []byte) { g.emit("rlen", n, b) })
	}
	// Sparse data in the reserved bits
	for k := 0; k < g.n(4000, 40000); k++ {
		b := make([]byte, 7)
		put(b, 1, 3, g.r.Uint64())
		p := 1 + g.r.Intn(56)
		put(b, p, p, 1)
		g.emit("reg", "bds07", b)
		b = g.random(7)
		put(b, 30, 56, 0)
		if k%2 == 0 {
			put(b, p, p, 1)
		}
		g.emit("reg", "bds17", b)
	}
	if !g.thorough {
		g.sample(600000)
	}
}

// raFields gives the fields of an advisory, after o bits
func raFields(o int) []field {
	return []field{{0, o + 1, o + 7}, {0, o + 1, o + 8}, {0, o + 15, o + 18}, {0, o + 19, o + 22}, {o + 22, o + 23, o + 30}, {o + 21, o + 23, o + 28}, {o + 21, o + 29, o + 35},
		{o + 21, o + 23, o + 35}, {o + 21, o + 36, o + 42}, {o + 21, o + 43, o + 48}, {o + 22, o + 31, o + 38}, {o + 22, o + 39, o + 46}}
}

func genRa(g *gen) {
	// Directly
	n := 0
	g.sweep(format{n: 6, fields: raFields(0), fix: func(b []byte) {
		n++
		if n%3 > 0 {
			put(b, 21, 22, uint64(n%3))
		}
	}}, 2, func(b []byte) { g.emit("reg", "ra", b) })
	// All the altitudes of threats
	for a := 0; a < 8192; a++ {
		b := g.random(6)
		put(b, 21, 22, 2)
		put(b, 23, 35, uint64(a))
		g.emit("reg", "ra", b)
	}
	// In the register 3,0 and the extended squitter 6,1
	g.sweep(format{n: 7, fields: raFields(8), fix: func(b []byte) { b[0] = 0x30 }}, 1, func(b []byte) { g.emit("reg", "bds30", b) })
	for k := 0; k < g.n(12000, 120000); k++ {
		b := g.random(7)
		b[0] = 28*8 + 2
		if k%2 == 0 {
			put(b, 29, 30, uint64(k%3))
		}
		g.emit("reg", "bds61a", b)
		b = clone(b)
		b[0] = byte(g.r.Intn(256))
		if k%2 == 0 {
			b[0] = 0x30
		}
		g.emit("reg", "bds30", b)
	}
	g.lengths(func(b []byte) {
		g.emit("rlen", "ra", b)
		g.emit("rlen", "bds30", clone(b))
		g.emit("rlen", "bds61a", clone(b))
	})
}

// ---------------------------------------------------------------------------------------------------------------------
// Mixed operations, executed concurrently

func genMixed(g *gen) {
	names := []string{}
	for _, f := range []string{"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P27", "P28"} {
		names = append(names, f)
	}
	all := []rec{}
	for _, n := range names {
		sub := &gen{r: rand.New(rand.NewSource(g.r.Int63())), thorough: false}
		families[n](sub)
		sub.sample(g.n(4000, 40000))
		all = append(all, sub.recs...)
	}
	// Every reader on every length
	readersNames := []string{}
	for n := range readers {
		readersNames = append(readersNames, n)
	}
	sort.Strings(readersNames)
	g.recs = nil
	for k := 0; k < g.n(2, 12); k++ {
		for n := 0; n <= 24; n++ {
			for _, name := range readersNames {
				b := g.random(n)
				g.emit("rlen", name, b)
			}
			g.emit("class", g.random(n))
			for df := 0; df < 32; df++ {
				g.emit("crclen", int64(df<<3), g.random(n))
			}
			g.emit("adsblen", g.v3(), g.random(n))
			g.emit("commblen", g.random(n))
		}
	}
	// Codes and references that are not possible ones
	for k := 0; k < g.n(3000, 30000); k++ {
		codes := []interface{}{}
		numbers := []interface{}{}
		for i := 0; i < 4; i++ {
			c := g.pick([]string{"0", "1", "131071", "131072", "131073", "65536", "262143", "16777216", "2147483647", "2147483648", "4294967295", ""})
			if c == "" {
				c = strconv.Itoa(g.r.Intn(131072))
			}
			codes = append(codes, c)
			x := g.pick([]string{"NaN", "+Inf", "-Inf", "1e300", "-1e300", "1e-320", "-0", "90", "-90", "180", "-180", "360", "1e6", "-4e9", "9.3e18", ""})
			if x == "" {
				x = strconv.Itoa(g.r.Intn(181) - 90)
			}
			numbers = append(numbers, x)
		}
		g.emit("wild", codes, numbers)
	}
	g.recs = append(g.recs, all...)
	// each one twice, at different moments
	g.recs = append(g.recs, g.recs[:len(g.recs)/3]...)
	g.r.Shuffle(len(g.recs), func(a, b int) { g.recs[a], g.recs[b] = g.recs[b], g.recs[a] })
}

// genReceived puts in transmissions the messages of all the families: frames of all kinds as they are, messages of 56 bits
// in squitters, replies and coordinations. The parity is right most of the time, some bits are damaged otherwise.
func genReceived(g *gen) {
	set := func(vs ...uint32) tuple {
		r := tuple{}
		for _, v := range vs {
			r = append(r, int64(v))
		}
		return r
	}
	address := func() uint32 {
		switch g.r.Intn(6) {
		case 0:
			return uint32(1) << uint(g.r.Intn(24))
		case 1:
			return uint32(g.r.Intn(80))
		}
		return uint32(g.r.Intn(1 << 24))
	}
	transmit := func(b []byte, v, a, c int64) {
		who := address()
		df := int(b[0] >> 3)
		over := who
		if df == 17 || df == 18 {
			over = 0
		}
		if df == 11 {
			over = uint32(g.r.Intn(80))
		}
		seal(b, over)
		if g.r.Intn(10) == 0 {
			for f := 1 + g.r.Intn(4); f > 0; f-- {
				p := g.r.Intn(8 * len(b))
				b[p/8] ^= 1 << uint(7-p%8)
			}
		}
		switch g.r.Intn(6) {
		case 0:
			g.emit("rcv", b, v, a, c, set(), set())
		case 1:
			g.emit("rcv", b, v, a, c, set(address(), who^1<<uint(g.r.Intn(24))), set(over^1, 33))
		default:
			g.emit("rcv", b, v, a, c, set(address(), who, address()), set(7, over))
		}
	}
	long := func(df int, data []byte) {
		b := g.frame(df)
		if withAltitude(df) {
			g.legal(b)
		}
		copy(b[4:11], data)
		transmit(b, g.v3(), g.bool_(), g.bool_())
	}
	for _, b := range recorded() {
		g.emit("rcv", b, g.v3(), g.bool_(), g.bool_(), set(), set())
	}
	names := []string{}
	for f := range families {
		if !composed[f] && f != "P20" && f != "P21" && f != "P22" {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	for _, f := range names {
		sub := &gen{r: rand.New(rand.NewSource(g.r.Int63())), thorough: g.thorough}
		families[f](sub)
		sub.sample(g.n(8000, 60000))
		for _, r := range sub.recs {
			switch r.op {
			case "class", "hdr", "raw", "alt", "idn", "crc":
				if b := clone(r.args[0].([]byte)); len(b) > 3 {
					transmit(b, g.v3(), g.bool_(), g.bool_())
				}
			case "adsb", "adsbtype", "integ":
				if d := r.args[3].([]byte); len(d) == 7 && num(r.args[0]) < 3 {
					b := g.frame(17 + g.r.Intn(2))
					if b[0]>>3 == 18 {
						b[0] = b[0]&^7 | byte(g.r.Intn(3))
					}
					copy(b[4:11], d)
					transmit(b, num(r.args[0]), num(r.args[1]), num(r.args[2]))
				}
			case "gs":
				if d := r.args[0].([]byte); len(d) == 7 {
					long(17, d)
				}
			case "commb", "commbv":
				if d := r.args[0].([]byte); len(d) == 7 {
					long(20+g.r.Intn(2), d)
				}
			case "reg":
				d := r.args[1].([]byte)
				switch name := r.args[0].(string); {
				case name == "ra" && len(d) == 6:
					long(16, append([]byte{0x30}, d...))
				case len(d) != 7:
				case name == "bds05" || name == "bds06" || name == "bds08" || len(name) > 4 && (name[:5] == "bds09" || name[:5] == "bds61" || name[:5] == "bds62" || name[:5] == "bds65"):
					long(17, d)
				default:
					long(20+g.r.Intn(2), d)
				}
			}
		}
	}
}

func (g *gen) pick(s []string) string { return s[g.r.Intn(len(s))] }
