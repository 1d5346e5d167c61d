package main

// The command line program: it is executed as a process, on files of lines and on single lines, and what it prints is
// cut in the answers to each of the lines.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// bodies gives messages that have a meaning, from the other families: 56 bits of ADS-B, Comm-B, and ACAS messages
func (g *gen) bodies(families_ []string, n int) [][]byte {
	r := [][]byte{}
	for _, f := range families_ {
		sub := &gen{r: rand.New(rand.NewSource(g.r.Int63()))}
		families[f](sub)
		sub.r.Shuffle(len(sub.recs), func(a, b int) { sub.recs[a], sub.recs[b] = sub.recs[b], sub.recs[a] })
		k := 0
		for _, c := range sub.recs {
			if k >= n {
				break
			}
			switch c.op {
			case "reg", "adsb", "commb", "commbv", "integ":
				if b, ok := c.args[len(c.args)-1].([]byte); ok && (len(b) == 7 || len(b) == 6) {
					if len(b) == 6 {
						b = append([]byte{0x30}, b...)
					}
					r = append(r, b)
					k++
				}
			}
		}
	}
	return r
}

type pools struct{ adsb, commb, acas [][]byte }

// cliLines gives lines of text for the program
func (g *gen) cliLines(p *pools, n int) []string {
	adsb, commb, acas := p.adsb, p.commb, p.acas
	r := []string{}
	text := func(b []byte) {
		s := hex.EncodeToString(b)
		switch g.r.Intn(3) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			t := []byte(s)
			for i := range t {
				if g.r.Intn(2) == 0 {
					t[i] = strings.ToUpper(s[i : i+1])[0]
				}
			}
			s = string(t)
		}
		r = append(r, s)
	}
	frame := func(df int) []byte {
		b := g.frame(df)
		if withAltitude(df) && g.r.Intn(12) != 0 {
			g.legal(b)
		}
		return b
	}
	formats := append(append([]int{}, shortFormats...), longFormats...)
	for k := 0; k < n; k++ {
		a := uint32(g.r.Intn(1 << 24))
		switch g.r.Intn(4) {
		case 0:
			a = uint32(g.r.Intn(100))
		}
		var b []byte
		switch k % 8 {
		case 0, 1:
			b = frame(17)
			copy(b[4:11], adsb[g.r.Intn(len(adsb))])
			a = 0
		case 2:
			b = frame(18)
			put(b, 6, 8, uint64(g.r.Intn(8)))
			if g.r.Intn(2) == 0 {
				put(b, 6, 8, uint64(g.r.Intn(2)))
			}
			copy(b[4:11], adsb[g.r.Intn(len(adsb))])
			a = 0
		case 3, 4:
			b = frame(20 + g.r.Intn(2))
			copy(b[4:11], commb[g.r.Intn(len(commb))])
		case 5:
			b = frame(16)
			if g.r.Intn(3) > 0 {
				copy(b[4:11], acas[g.r.Intn(len(acas))])
				if g.r.Intn(4) > 0 {
					b[4] = 0x30
				}
			}
		case 6:
			b = frame(formats[g.r.Intn(len(formats))])
			switch b[0] >> 3 {
			case 17, 18:
				a = 0
			}
		case 7:
			b = frame(g.r.Intn(32))
			switch g.r.Intn(4) {
			case 0:
				b = g.random(g.r.Intn(24))
			case 1:
				b = g.random([]int{7, 14}[g.r.Intn(2)])
			case 2:
				b = b[:g.r.Intn(len(b)+1)]
			}
		}
		if len(b) > 3 && k%8 != 7 && g.r.Intn(10) > 0 {
			seal(b, a)
		}
		if len(b) > 3 && g.r.Intn(60) == 0 { // too long, or too short
			if b = g.longer(b, false); len(b) > 300 {
				b = b[:300]
			}
		}
		if len(b) > 3 && g.r.Intn(25) == 0 { // damaged
			p := g.r.Intn(8 * len(b))
			b[p/8] ^= 1 << uint(7-p%8)
		}
		text(b)
		if g.r.Intn(12) == 0 { // a line that is damaged
			s := r[len(r)-1]
			p := g.r.Intn(len(s) + 1)
			switch g.r.Intn(6) {
			case 0:
				s = s[:p]
			case 1:
				s = s[:p] + []string{" ", "x", "G", "g", ":", "@", "/", "`", "*", "\t", "é", "%d", "0x", "\x00", "\xff"}[g.r.Intn(15)] + s[p:]
			case 2:
				s = " " + s
			case 3:
				s = s + ";"
			case 4:
				s = ""
			case 5:
				if p < len(s) {
					s = s[:p] + []string{"g", "G", "z", "O", "l", ":", "@", "`", "/"}[g.r.Intn(9)] + s[p+1:]
				}
			}
			r[len(r)-1] = s
		}
	}
	return r
}

func codes(s string) tuple {
	r := tuple{}
	for i := 0; i < len(s); i++ {
		r = append(r, int64(s[i]))
	}
	return r
}

// run executes the program. The result is the standard output and the exit status (-1 when it does not end)
func run(binary string, args ...string) (string, int) {
	return runIn("", binary, args...)
}

// runIn executes the program in a folder
func runIn(dir string, binary string, args ...string) (string, int) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, binary, args...)
	c.Dir = dir
	var out bytes.Buffer
	c.Stdout = &out
	err := c.Run()
	if ctx.Err() != nil {
		return out.String(), -1
	}
	if err != nil {
		if e, ok := err.(*exec.ExitError); ok {
			return out.String(), e.ExitCode()
		}
		panic(err)
	}
	return out.String(), 0
}

// answers cuts what the program printed in the answers to the lines
func answers(lines_ []string, out string, status int) []tuple {
	r := make([]tuple, len(lines_))
	at := 0
	for i, l := range lines_ {
		echo := "Reading: " + l + "\n"
		if !strings.HasPrefix(out[at:], echo) {
			r[i] = tuple{"NO ANSWER", int64(status)}
			continue
		}
		at += len(echo)
		end := len(out)
		if i+1 < len(lines_) {
			next := "Reading: " + lines_[i+1] + "\n"
			if strings.HasPrefix(out[at:], next) {
				end = at
			} else if p := strings.Index(out[at:], "\n"+next); p >= 0 {
				end = at + p + 1
			}
		}
		r[i] = lines(out[at:end])
		at = end
	}
	if status != 0 && len(lines_) > 0 {
		r[len(lines_)-1] = tuple{"EXIT", int64(status)}
	}
	return r
}

// cliMain: cli <binary> <seed> <tier> <shards> <dir>
func cliMain(args []string) error {
	if len(args) != 5 {
		return fmt.Errorf("cli <binary> <seed> <tier> <shards> <dir>")
	}
	binary := args[0]
	seed, err := strconv.ParseInt(args[1], 10, 64)
	if err != nil {
		return err
	}
	shards, err := strconv.Atoi(args[3])
	if err != nil {
		return err
	}
	dir := args[4]
	g := &gen{r: rand.New(rand.NewSource(seed*7919 + 25)), thorough: args[2] == "thorough"}
	outs := [][]byte{}
	counts := map[string]int{}
	add := func(op string, a tuple, out tuple) {
		outs = append(outs, record(op, a, out))
		counts[op]++
	}
	write := func(name string, content string) string {
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, []byte(content), 0600); err != nil {
			panic(err)
		}
		return p
	}
	p := &pools{
		adsb:  g.bodies([]string{"P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14"}, g.n(2000, 20000)),
		commb: g.bodies([]string{"P15", "P16", "P17", "P18", "P10", "P19"}, g.n(2000, 20000)),
		acas:  g.bodies([]string{"P19"}, g.n(4000, 20000)),
	}
	long := strings.Repeat("8D", 40000)
	for level := 0; level <= 2; level++ {
		// Files
		for k := 0; k < g.n(6, 40); k++ {
			ls := g.cliLines(p, g.n(1500, 4000))
			if k%6 == 4 {
				i := g.r.Intn(len(ls))
				l := long[:65536+2*k]
				if level == 1 { // some megabytes
					l = strings.Repeat(long, 64)
				}
				ls = append(append(append([]string{}, ls[:i]...), l), ls[i:]...)
			}
			if k%6 == 5 {
				ls = ls[:g.r.Intn(3)+1]
			}
			end := "\n"
			if k%3 == 1 {
				end = "\r\n"
			}
			content := strings.Join(ls, end)
			last := len(ls) - 1
			if k%2 == 0 || ls[last] == "" {
				content += end
			}
			path := write([]string{"lines.txt", "f", "two words.txt", "donn\u00e9es"}[k/4%4], content)
			name := path
			if k/4%2 == 1 {
				name = filepath.Base(path) // from the folder of the file
			}
			a := []string{"-adsb_reader_level", strconv.Itoa(level), "-file", name}
			switch k % 4 {
			case 1:
				a = []string{"-file=" + name, fmt.Sprintf("--adsb_reader_level=%d", level)}
			case 2:
				a = append(a, "8D4BAB4558AB031C446849B72535") // the file comes first
			case 3:
				if level == 0 {
					a = a[2:]
				}
			}
			out, status := runIn(dir, binary, a...)
			for i, t := range answers(ls, out, status) {
				// the line that is too long to be written in a record is given as its beginning
				l := ls[i]
				if len(l) > 1000 {
					l = l[:1000]
				}
				add("cli", tuple{int64(level), codes(l)}, t)
			}
			os.Remove(path)
		}
		// What was really received
		for _, name := range []string{"one", "two"} {
			ls := recordedLines(name)
			if !g.thorough {
				ls = ls[len(ls)*level/3 : len(ls)*(level+1)/3]
			}
			path := write(name+".txt", strings.Join(ls, "\n"))
			out, status := run(binary, "-adsb_reader_level", strconv.Itoa(level), "-file", path)
			for i, t := range answers(ls, out, status) {
				add("cli", tuple{int64(level), codes(ls[i])}, t)
			}
			os.Remove(path)
		}
		// Single lines
		for _, l := range g.cliLines(p, g.n(64, 400)) {
			if strings.HasPrefix(l, "-") || strings.Contains(l, "\x00") {
				continue
			}
			out, status := run(binary, "-adsb_reader_level", strconv.Itoa(level), l)
			add("cli", tuple{int64(level), codes(l)}, answers([]string{l}, out, status)[0])
		}
	}
	// Very many lines, in groups: the answers of the same line are the same record
	some := g.cliLines(p, 60)
	many := []string{}
	for len(many) < g.n(70000, 300000) {
		l := some[g.r.Intn(len(some))]
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			many = append(many, l)
		}
	}
	path := write("many.txt", strings.Join(many, "\n")+"\n")
	out, status := run(binary, "-file", path)
	os.Remove(path)
	seen := map[string]bool{}
	for i, t := range answers(many, out, status) {
		if key := string(record("cli", tuple{int64(0), codes(many[i])}, t)); !seen[key] {
			seen[key] = true
			add("cli", tuple{int64(0), codes(many[i])}, t)
		}
	}
	// What does not decode anything
	other := func(kind string, args ...string) {
		out, status := run(binary, args...)
		t := tuple{"failed"}
		if status == 0 {
			t = append(tuple{"exit 0"}, lines(out)[1:]...)
		} else if status < 0 {
			t = tuple{"endless"}
		}
		add("clirun", tuple{kind}, t)
	}
	other("nothing given")
	other("nothing given", "-adsb_reader_level", "2")
	for _, l := range []string{"3", "-1", "17", "100000"} {
		other("unknown level", "-adsb_reader_level", l, "8D4BAB4558AB031C446849B72535")
	}
	other("no such file", "-file", filepath.Join(dir, "missing"))
	other("no such file", "-file", dir)
	other("unknown option", "-unknown", "8D4BAB4558AB031C446849B72535")
	other("empty file", "-file", write("empty.txt", ""))

	for s := 0; s < shards; s++ {
		w, err := os.Create(filepath.Join(dir, fmt.Sprintf("trace_%d.ndjson", s)))
		if err != nil {
			return err
		}
		bw := bufio.NewWriter(w)
		for i := s * len(outs) / shards; i < (s+1)*len(outs)/shards; i++ {
			if _, err := bw.Write(outs[i]); err != nil {
				return err
			}
		}
		if err := bw.Flush(); err != nil {
			return err
		}
		if err := w.Close(); err != nil {
			return err
		}
	}
	for o, n := range counts {
		fmt.Println(o, n)
	}
	return nil
}
