package main

// Generation of positions

import (
	"fmt"
	"math"
	"math/rand"
	"sync"
)

func nlOf(lat float64) float64 {
	a := math.Abs(lat)
	if a > 87 {
		return 1
	}
	if a == 87 {
		return 2
	}
	c := math.Cos(math.Pi / 180 * a)
	return math.Floor(2 * math.Pi / math.Acos(1-(1-math.Cos(math.Pi/30))/(c*c)))
}

func frac(x float64) float64 { return x - math.Floor(x) }

// encode gives the codes of a position, as an aircraft does
func encode(lat, lon float64, odd bool, full float64) (int64, int64) {
	i := 0.0
	if odd {
		i = 1
	}
	d := full / (60 - i)
	y := math.Floor(131072*frac(lat/d) + 0.5)
	rlat := d * (y/131072 + math.Floor(lat/d))
	n := math.Max(nlOf(rlat)-i, 1)
	dl := full / n
	x := math.Floor(131072*frac(lon/dl) + 0.5)
	return int64(y) % 131072, int64(x) % 131072
}

var specialLats = []float64{0, 87, -87, 90, -90, 10.47047130, 14.82817437, 45, -45, 52.5, 59.95459277, 86.53536998, 83.99173563, 6, 6.1, -6}
var specialLons = []float64{0, 180, -180, 90, -90, 45, 135, 179.999, -179.999, 6.2, -0.0005}

func (g *gen) position() (float64, float64) {
	lat := g.r.Float64()*180 - 90
	lon := g.r.Float64()*360 - 180
	switch g.r.Intn(8) {
	case 0:
		lat = specialLats[g.r.Intn(len(specialLats))] + (g.r.Float64()-0.5)*0.01
	case 1:
		lon = specialLons[g.r.Intn(len(specialLons))] + (g.r.Float64()-0.5)*0.01
	case 2:
		lat = 84 + g.r.Float64()*6
		if g.r.Intn(2) == 0 {
			lat = -lat
		}
	case 3: // near a transition latitude
		n := float64(2 + g.r.Intn(58))
		c := math.Sqrt((1 - math.Cos(math.Pi/30)) / (1 - math.Cos(2*math.Pi/n)))
		if c <= 1 {
			lat = math.Acos(c) * 180 / math.Pi * float64(1-2*g.r.Intn(2))
			lat += (g.r.Float64() - 0.5) * math.Pow(10, -float64(g.r.Intn(5)))
		}
	}
	return math.Max(-90, math.Min(90, lat)), math.Max(-180, math.Min(180, lon))
}

// move goes a few kilometres away
func (g *gen) move(lat, lon, scale float64) (float64, float64) {
	lat += (g.r.Float64() - 0.5) * scale
	lon += (g.r.Float64() - 0.5) * scale
	return math.Max(-90, math.Min(90, lat)), lon - 360*math.Floor((lon+180)/360)
}

func (g *gen) code() int64 {
	switch g.r.Intn(6) {
	case 0:
		return int64(g.r.Intn(4))
	case 1:
		return 131071 - int64(g.r.Intn(4))
	case 2:
		return 65536 + int64(g.r.Intn(5)) - 2
	case 3:
		return int64(g.r.Intn(32)) * 4096
	}
	return int64(g.r.Intn(131072))
}

// turned gives, from time to time, the same longitude with other turns
func (g *gen) turned(lon float64) float64 {
	if g.r.Intn(6) == 0 {
		lon += 360 * float64(g.r.Intn(5)-2)
	}
	return lon
}

// beside emits a call and, from time to time, the same codes again with another format for the last report, or a reference
// that is a bit further: what is decoded does not depend on what was decoded before
func (g *gen) beside(op string, args ...interface{}) {
	g.emit(op, args...)
	if g.r.Intn(5) > 0 {
		return
	}
	again := append([]interface{}{}, args...)
	j := len(args) - 1 - g.r.Intn(3)
	switch {
	case op == "air" || j == len(args)-3:
		j = 4
		if op != "air" && op != "surf" {
			j = 2
		}
		again[j] = 1 - again[j].(int64)
	default:
		again[j] = again[j].(int64) + int64(g.r.Intn(6000001)-3000000)
		if x := again[j].(int64); j == len(args)-2 && (x > 90000000 || x < -90000000) {
			return
		}
	}
	g.emit(op, again...)
}

func genAir(g *gen) {
	for k := 0; k < g.n(60000, 700000); k++ {
		lat, lon := g.position()
		lat2, lon2 := lat, lon
		if k%2 == 0 {
			lat2, lon2 = g.move(lat, lon, 0.05)
		}
		ye, xe := encode(lat, lon, false, 360)
		yo, xo := encode(lat2, lon2, true, 360)
		g.beside("air", ye, xe, yo, xo, g.bool_())
	}
	for k := 0; k < g.n(60000, 600000); k++ {
		if k%2 == 0 {
			g.beside("air", int64(g.r.Intn(131072)), int64(g.r.Intn(131072)), int64(g.r.Intn(131072)), int64(g.r.Intn(131072)), g.bool_())
		} else {
			g.beside("air", g.code(), g.code(), g.code(), g.code(), g.bool_())
		}
	}
	// Every latitude of the globe
	for lat := -90.0; lat <= 90; lat += 0.01 {
		lon := g.r.Float64()*360 - 180
		ye, xe := encode(lat, lon, false, 360)
		yo, xo := encode(lat, lon, true, 360)
		g.beside("air", ye, xe, yo, xo, g.bool_())
	}
}

func mu(x float64) int64 { return int64(math.Round(x * 1e6)) }

func genSurf(g *gen) {
	for k := 0; k < g.n(90000, 900000); k++ {
		lat, lon := g.position()
		lat2, lon2 := lat, lon
		if k%2 == 0 {
			lat2, lon2 = g.move(lat, lon, 0.01)
		}
		ye, xe := encode(lat, lon, false, 90)
		yo, xo := encode(lat2, lon2, true, 90)
		rlat, rlon := g.move(lat, lon, []float64{0.1, 2, 20, 80}[g.r.Intn(4)])
		g.beside("surf", ye, xe, yo, xo, g.bool_(), mu(rlat), mu(g.turned(rlon)))
	}
	for k := 0; k < g.n(40000, 400000); k++ {
		rlat, rlon := g.position()
		if k%2 == 0 {
			g.beside("surf", int64(g.r.Intn(131072)), int64(g.r.Intn(131072)), int64(g.r.Intn(131072)), int64(g.r.Intn(131072)), g.bool_(), mu(rlat), mu(g.turned(rlon)))
		} else {
			g.beside("surf", g.code(), g.code(), g.code(), g.code(), g.bool_(), mu(rlat), mu(g.turned(rlon)))
		}
	}
	for lat := -90.0; lat <= 90; lat += 0.02 {
		lon := g.r.Float64()*360 - 180
		ye, xe := encode(lat, lon, false, 90)
		yo, xo := encode(lat, lon, true, 90)
		rlat, rlon := g.move(lat, lon, 1)
		g.beside("surf", ye, xe, yo, xo, g.bool_(), mu(rlat), mu(g.turned(rlon)))
	}
}

func genLocal(g *gen) {
	for k := 0; k < g.n(50000, 500000); k++ {
		lat, lon := g.position()
		odd := g.r.Intn(2)
		for _, s := range []bool{false, true} {
			full, op, scale := 360.0, "airl", 5.0
			if s {
				full, op, scale = 90.0, "surfl", 1.2
			}
			y, x := encode(lat, lon, odd == 1, full)
			rlat, rlon := g.move(lat, lon, scale*g.r.Float64())
			if k%3 == 0 {
				y, x = g.code(), g.code()
			}
			if k%5 == 0 {
				rlat, rlon = g.position()
			}
			g.beside(op, y, x, int64(odd), mu(rlat), mu(g.turned(rlon)))
		}
	}
	for lat := -90.0; lat <= 90; lat += 0.02 {
		lon := g.r.Float64()*360 - 180
		odd := g.r.Intn(2)
		y, x := encode(lat, lon, odd == 1, 360)
		g.emit("airl", y, x, int64(odd), mu(lat), mu(lon))
		y, x = encode(lat, lon, odd == 1, 90)
		g.emit("surfl", y, x, int64(odd), mu(lat), mu(lon))
	}
}

func genDistance(g *gen) {
	for k := 0; k < g.n(60000, 600000); k++ {
		lat, lon := g.position()
		lat2, lon2 := g.position()
		switch k % 8 {
		case 0:
			lat2, lon2 = g.move(lat, lon, 0.001)
		case 1:
			lat2, lon2 = g.move(lat, lon, 0.4)
		case 2:
			lat2, lon2 = g.move(lat, lon, 10)
		case 3: // antipodes
			lat2, lon2 = g.move(-lat, lon+180, []float64{0, 1e-5, 0.01, 1}[g.r.Intn(4)])
		case 4: // meridian
			lon2 = lon
		case 5: // equator
			lat, lat2 = 0, 0
		case 6: // across the antimeridian
			lon = 180 - g.r.Float64()*0.1
			lon2 = -180 + g.r.Float64()*0.1
			lat2 = lat + (g.r.Float64()-0.5)*0.1
		}
		lat, lat2 = math.Max(-90, math.Min(90, lat)), math.Max(-90, math.Min(90, lat2))
		lon, lon2 = g.turned(lon), g.turned(lon2)
		g.emit("dist", mu(lat), mu(lon), mu(lat2), mu(lon2))
		if k%4 == 0 {
			g.emit("dist", mu(lat2), mu(lon2), mu(lat), mu(lon))
		}
	}
}

// genText asks for the texts of the messages of all the other families. Among them are kept those that show a text
// not seen before, and some others.
func genText(g *gen) {
	from := []string{"P02", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19"}
	subs := make([]*gen, len(from))
	var wg sync.WaitGroup
	for i, f := range from {
		subs[i] = &gen{r: rand.New(rand.NewSource(g.r.Int63())), thorough: g.thorough}
		wg.Add(1)
		go func(sub *gen, f string) {
			defer wg.Done()
			families[f](sub)
			sub.r.Shuffle(len(sub.recs), func(a, b int) { sub.recs[a], sub.recs[b] = sub.recs[b], sub.recs[a] })
			sub.selectTexts(g.n(5000, 60000), g.n(60000, 1000000))
		}(subs[i], f)
	}
	wg.Wait()
	for _, sub := range subs {
		g.recs = append(g.recs, sub.recs...)
	}
	// The identity codes that have a meaning, and those that differ from them by a pulse
	for _, digits := range [][4]uint64{{7, 7, 0, 0}, {7, 6, 0, 0}, {7, 5, 0, 0}, {2, 0, 0, 0}} {
		for flip := 0; flip <= 13; flip++ {
			for _, df := range []int{5, 21} {
				b := g.frame(df)
				code := squawk(digits)
				if flip > 0 {
					code ^= 1 << uint(flip-1)
				}
				put(b, 20, 32, code)
				g.emit("text", "frame", b)
			}
		}
	}
}

// squawk gives the 13 bits C1 A1 C2 A2 C4 A4 X B1 D1 B2 D2 B4 D4 of four digits A B C D
func squawk(d [4]uint64) (r uint64) {
	for _, p := range [][2]uint64{{2, 0}, {0, 0}, {2, 1}, {0, 1}, {2, 2}, {0, 2}, {9, 0}, {1, 0}, {3, 0}, {1, 1}, {3, 1}, {1, 2}, {3, 2}} {
		r <<= 1
		if p[0] < 4 {
			r |= d[p[0]] >> p[1] & 1
		}
	}
	return r
}

func (g *gen) selectTexts(n, max int) {
	seen := map[string]int{}
	recs := g.recs
	g.recs = nil
	probability := float64(n) / float64(len(recs)+1)
	for i, r := range recs {
		var args tuple
		switch r.op {
		case "class", "hdr", "alt", "idn":
			args = tuple{"frame", r.args[0]}
		case "reg":
			args = tuple{r.args[0], r.args[1]}
		case "adsb", "integ", "adsbtype":
			args = tuple{"adsb", r.args[0], r.args[1], r.args[2], r.args[3]}
		default:
			continue
		}
		keep := g.r.Float64() < probability
		if i < max {
			text := Eval("text", args)
			if len(text) < 2 {
				keep = keep && g.r.Intn(4) == 0
			} else {
				for _, l := range text[1:] {
					line, ok := l.(tuple)
					if !ok || line[1] == "#" || line[1] == "" {
						continue
					}
					label := fmt.Sprint(text[1], "/", line[0])
					value := label + fmt.Sprint("/", line[1])
					if seen[value] == 0 && seen[label] < 5000 {
						seen[value] = 1
						seen[label]++
						keep = true
					}
				}
			}
		}
		if keep {
			g.emit("text", args...)
		}
	}
}
