package main

// A receiver made of the functions of the library: the frames that reach it are read, their parity is checked, the
// messages that they hold are read, and the positions decoded. It answers what it then knows of the aircraft.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"sync"

	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/geo"
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

const (
	recent  = 10
	lasting = 30
	unknown = -99999
)

// aircraft is what is known of an aircraft
type aircraft struct {
	Name      string        `json:"name"`
	Category  []interface{} `json:"category"`
	Altitude  interface{}   `json:"altitude"`
	Velocity  []interface{} `json:"velocity"`
	Rate      interface{}   `json:"rate"`
	Identity  string        `json:"identity"`
	Emergency interface{}   `json:"emergency"`
	Version   int64         `json:"version"`
	NicA      int64         `json:"nica"`
	NicC      int64         `json:"nicc"`
	Nacp      interface{}   `json:"nacp"`
	Contained []interface{} `json:"containment"`
	Advisory  []interface{} `json:"advisory"`
	Air       []interface{} `json:"air"`
	Target    []interface{} `json:"target"`
	Operation []interface{} `json:"operation"`
	Diff      interface{}   `json:"difference"`
	Ground    int           `json:"ground"`
	Even      []int64       `json:"even"`
	Odd       []int64       `json:"odd"`
	Position  []interface{} `json:"position"`
	Fixed     int64         `json:"fixed"`
	Registers []interface{} `json:"registers"`
	lat, lon  float64
}

type answer struct {
	Status  string        `json:"status"`
	Address int64         `json:"address"`
	How     string        `json:"how"`
	Gs      []interface{} `json:"gs"`
	Entry   *aircraft     `json:"entry"`
}

type receiver struct {
	table    map[int64]*aircraft
	lat, lon float64
	// The transmission that comes next, already read when the one before is used
	next []byte
}

func newAircraft() *aircraft {
	return &aircraft{Category: []interface{}{}, Altitude: unknown, Velocity: []interface{}{}, Rate: unknown, Emergency: -1, Nacp: -1, Contained: []interface{}{},
		Advisory: []interface{}{}, Air: []interface{}{}, Target: []interface{}{}, Operation: []interface{}{}, Diff: unknown,
		Ground: -1, Even: []int64{}, Odd: []int64{}, Position: []interface{}{}, Fixed: -1, Registers: []interface{}{}}
}

func (r *receiver) receive(frame []byte, t int64) (a answer) {
	defer func() {
		if p := recover(); p != nil {
			a = answer{Status: "PANIC", How: fmt.Sprint(p), Gs: []interface{}{}}
		}
	}()
	m, err := modesreader.ReadMessage(frame)
	if err != nil {
		return answer{Status: "ERR", Gs: []interface{}{}}
	}
	_, _ = modesreader.ReadMessage(r.next)
	known := map[common.ICAOAddress]bool{}
	for k := range r.table {
		known[common.ICAOAddress(k)] = true
	}
	df := m.GetDownLinkFormat()
	rejected := answer{Status: "REJ", Gs: []interface{}{}}
	// An empty set is no filter at all: when nobody is known, only those that announce their address are listened to
	if len(known) == 0 && df != 11 && df != 17 && df != 18 {
		return rejected
	}
	from, err := modesreader.CheckCRC(m, frame, known, map[common.ICAOAddress]bool{1: true, 7: true, 33: true})
	if err != nil {
		return rejected
	}
	address := int64(from)
	if m11, ok := m.(*messages.MessageDF11); ok {
		address = int64(m11.AddressAnnounced.Address)
	}
	e := *newAircraft()
	if k, ok := r.table[address]; ok {
		e = *k
	}
	a = answer{Status: "OK", Address: address, Gs: []interface{}{}, Entry: &e}
	v := core(reflect.ValueOf(m))
	if f := v.FieldByName("Altitude"); f.IsValid() {
		if method := num(scalar(v.FieldByName("AltitudeReportMethod"))); method >= 3 {
			e.Altitude = scalar(f)
		}
	}
	if f := v.FieldByName("Identity"); f.IsValid() {
		e.Identity = fmt.Sprint(scalar(f.FieldByName("Identity")))
	}
	switch x := m.(type) {
	case *messages.MessageDF17:
		r.squitter(&a, &e, x.MessageExtendedSquitter, t)
	case *messages.MessageDF18:
		if x.ControlField == 0 || x.ControlField == 1 {
			r.squitter(&a, &e, x.MessageExtendedSquitter, t)
		}
	case *messages.MessageDF16:
		// As the command line does: the register 3,0 is in the message
		if len(x.MessageACAS) == 7 && x.MessageACAS[0] == 0x30 {
			m, err := ra.ReadResolutionAdvisory(x.MessageACAS[1:])
			_, _ = ra.ReadResolutionAdvisory(payload(r.next)[1:])
			if err == nil {
				e.Advisory = content(m)[1:]
			}
		}
	case *messages.MessageDF20:
		e.registers(x.MessageCommB, r.next)
	case *messages.MessageDF21:
		e.registers(x.MessageCommB, r.next)
	}
	r.table[address] = &e
	return a
}

func (e *aircraft) registers(data, next []byte) {
	e.Registers = []interface{}{}
	ms, err := commb.ReadCommBMessage(data)
	_, _ = commb.ReadCommBMessage(payload(next))
	if err != nil {
		e.Registers = []interface{}{"ERR"}
		return
	}
	for _, m := range ms {
		e.Registers = append(e.Registers, content(m))
	}
}

func (r *receiver) squitter(a *answer, e *aircraft, data []byte, t int64) {
	m, err := adsbreader.ReadADSBMessage(adsb.ADSBVersion(e.Version), e.NicA != 0, e.NicC != 0, data)
	if err != nil {
		return
	}
	_, _ = adsbreader.ReadADSBMessage(adsb.ADSBVersion(e.Version), e.NicA == 0, e.NicC == 0, payload(r.next))
	c := content(m)
	position := func(report []int64, odd bool) {
		if odd {
			e.Odd = report
		} else {
			e.Even = report
		}
		a.How = "none"
		if len(e.Even) > 0 && len(e.Odd) > 0 && e.Even[3] == e.Odd[3] && t-e.Even[0] <= recent && t-e.Odd[0] <= recent {
			var lat, lon float64
			var err error
			if report[3] == 1 {
				lat, lon, err = geo.GetCPRSurfaceGlobalPosition(uint32(e.Even[1]), uint32(e.Even[2]), uint32(e.Odd[1]), uint32(e.Odd[2]), !odd, r.lat, r.lon)
			} else {
				lat, lon, err = geo.GetCPRAirborneGlobalPosition(uint32(e.Even[1]), uint32(e.Even[2]), uint32(e.Odd[1]), uint32(e.Odd[2]), !odd)
			}
			if err == nil {
				e.lat, e.lon, a.How = lat, lon, "global"
			}
		}
		if a.How == "none" && len(e.Position) > 0 && t-e.Fixed <= lasting {
			if report[3] == 1 {
				e.lat, e.lon = geo.GetCPRSurfaceLocalPosition(uint32(report[1]), uint32(report[2]), e.lat, e.lon, odd)
			} else {
				e.lat, e.lon = geo.GetCPRAirborneLocalPosition(uint32(report[1]), uint32(report[2]), e.lat, e.lon, odd)
			}
			a.How = "local"
		}
		if a.How != "none" {
			e.Position = []interface{}{milli(e.lat, 1e6), milli(e.lon, 1e6)}
			e.Fixed = t
		}
	}
	switch c[0] {
	case "AirbornePosition":
		e.Altitude, e.Ground, e.Contained = c[6], 0, fieldsOf(m, tag(m))
		position([]int64{t, num(c[9]), num(c[10]), 0}, num(c[8]) != 0)
	case "SurfacePosition":
		e.Velocity, e.Ground = []interface{}{c[3], c[5]}, 1
		e.Contained = fieldsOf(m, tag(m))
		position([]int64{t, num(c[8]), num(c[9]), 1}, num(c[7]) != 0)
	case "AircraftIdentificationAndCategory":
		e.Name, e.Category = fmt.Sprint(c[4]), []interface{}{c[2], c[3]}
	case "AirborneVelocityGroundSpeedNormal", "AirborneVelocityGroundSpeedSupersonic":
		e.Rate, e.Diff = c[14], c[16]
		e.Velocity = []interface{}{}
		a.Gs = Eval("gs", tuple{data})
		if num(c[7]) == 1 && num(c[10]) == 1 {
			e.Velocity = []interface{}{signed(c[6], c[8]), signed(c[9], c[11])}
		}
	case "AirborneVelocityAirSpeedNormal", "AirborneVelocityAirSpeedSupersonic":
		e.Air, e.Rate, e.Diff = []interface{}{c[6], c[7], c[9]}, c[12], c[14]
	case "AircraftStatusACAS":
		e.Advisory = c[3 : len(c)-1]
	case "AircraftStatusEmergency":
		e.Emergency = c[3]
		// the four digits are in the order of the identity code of the replies
		e.Identity = digits(num(c[4]))
	case "TargetStateAndStatus0", "TargetStateAndStatus1":
		e.Target = c[2 : len(c)-1]
	default:
		if f, ok := m.(interface{ GetADSBVersion() adsb.ADSBVersion }); ok && data[0]>>3 == 31 {
			e.Version = int64(f.GetADSBVersion())
			e.NicA, e.NicC, e.Nacp = 0, 0, -1
			e.Operation = c[2 : len(c)-1]
			v := core(reflect.ValueOf(m))
			for _, name := range []string{"NICSupplement", "NICSupplementA"} {
				if x := v.FieldByName(name); x.IsValid() {
					e.NicA = num(scalar(x))
				}
			}
			if x := v.FieldByName("SurfaceCapabilityClass"); x.IsValid() {
				if x = x.FieldByName("NICSupplementC"); x.IsValid() {
					e.NicC = num(scalar(x))
				}
			}
			if x := v.FieldByName("NavigationalAccuracyCategoryPosition"); x.IsValid() {
				e.Nacp = scalar(x)
			}
		}
	}
}

func signed(sign, n interface{}) int64 {
	if num(sign) != 0 {
		return -num(n)
	}
	return num(n)
}

// digits gives the four digits of an identity code (C1 A1 C2 A2 C4 A4 X B1 D1 B2 D2 B4 D4)
func digits(code int64) string {
	b := func(i uint) int64 { return code >> (13 - i) & 1 }
	return fmt.Sprintf("%d%d%d%d", 4*b(6)+2*b(4)+b(2), 4*b(12)+2*b(10)+b(8), 4*b(5)+2*b(3)+b(1), 4*b(13)+2*b(11)+b(9))
}

// payload is the part of a long frame that holds a message
func payload(frame []byte) []byte {
	if len(frame) != 14 {
		return make([]byte, 7)
	}
	return frame[4:11]
}

// receiveStream plays histories: a line for the place of the receiver, then the frames
func receiveStream(in io.Reader, out io.Writer) error {
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	w := bufio.NewWriter(out)
	defer w.Flush()
	var lines []map[string]json.RawMessage
	for sc.Scan() {
		var line map[string]json.RawMessage
		if err := json.Unmarshal(sc.Bytes(), &line); err != nil {
			return err
		}
		lines = append(lines, line)
	}
	if err := sc.Err(); err != nil {
		return err
	}
	// The histories are independent: each of them has its receiver, and they are all played at the same time
	var starts []int
	for i, line := range lines {
		if _, ok := line["station"]; ok {
			starts = append(starts, i)
		}
	}
	errs := make([]error, len(starts))
	var all sync.WaitGroup
	for k, from := range starts {
		to := len(lines)
		if k+1 < len(starts) {
			to = starts[k+1]
		}
		all.Add(1)
		go func(k int, history []map[string]json.RawMessage) {
			defer all.Done()
			errs[k] = play(history)
		}(k, lines[from:to])
	}
	all.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	for _, line := range lines {
		j, err := json.Marshal(line)
		if err != nil {
			return err
		}
		if _, err := w.Write(append(j, '\n')); err != nil {
			return err
		}
	}
	return nil
}

// play gives the lines of a history to a receiver, and adds its answers
func play(lines []map[string]json.RawMessage) error {
	var r *receiver
	for i, line := range lines {
		if s, ok := line["station"]; ok {
			var p []float64
			if err := json.Unmarshal(s, &p); err != nil {
				return err
			}
			r = &receiver{table: map[int64]*aircraft{}, lat: p[0] / 1e6, lon: p[1] / 1e6}
		} else {
			b, err := frameOf(line)
			if err != nil {
				return err
			}
			r.next = nil
			if i+1 < len(lines) {
				if r.next, err = frameOf(lines[i+1]); err != nil {
					return err
				}
			}
			var t int64
			if err := json.Unmarshal(line["t"], &t); err != nil {
				return err
			}
			a := r.receive(b, t)
			if a.Entry == nil {
				a.Entry = newAircraft()
			}
			j, err := json.Marshal(a)
			if err != nil {
				return err
			}
			line["answer"] = j
		}
	}
	return nil
}

// frameOf gives the frame of a line, none when a history begins
func frameOf(line map[string]json.RawMessage) ([]byte, error) {
	var frame []int
	if f, ok := line["frame"]; ok {
		if err := json.Unmarshal(f, &frame); err != nil {
			return nil, err
		}
	}
	b := make([]byte, len(frame))
	for i := range b {
		b[i] = byte(frame[i])
	}
	return b, nil
}
