package main

// The operations: each one calls the public API of the library and gives the projection of its result. The
// result is ["ERR"] when the library refuses the input, ["PANIC"] when it panics, ["MUT"] when it modifies its
// input.

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/twuillemin/modes/pkg/acas/ra"
	rafields "github.com/twuillemin/modes/pkg/acas/ra/fields"
	"github.com/twuillemin/modes/pkg/adsb"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"github.com/twuillemin/modes/pkg/bds/register"
	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/geo"
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

type tuple = []interface{}

// rdr calls one reader of the library
type rdr func(data []byte) (interface{}, error)

var readers = map[string]rdr{
	"bds00":   func(d []byte) (interface{}, error) { return bds00.ReadNoMessageAvailable(d) },
	"bds05":   func(d []byte) (interface{}, error) { return bds05.ReadAirbornePosition(d) },
	"bds06":   func(d []byte) (interface{}, error) { return bds06.ReadSurfacePosition(d) },
	"bds07":   func(d []byte) (interface{}, error) { return bds07.ReadStatus(d) },
	"bds08":   func(d []byte) (interface{}, error) { return bds08.ReadAircraftIdentificationAndCategory(d) },
	"bds09":   func(d []byte) (interface{}, error) { return bds09.ReadAirborneVelocity(d) },
	"bds09gn": func(d []byte) (interface{}, error) { return bds09.ReadAirborneVelocityGroundSpeedNormal(d) },
	"bds09gs": func(d []byte) (interface{}, error) { return bds09.ReadAirborneVelocityGroundSpeedSupersonic(d) },
	"bds09an": func(d []byte) (interface{}, error) { return bds09.ReadAirborneVelocityAirSpeedNormal(d) },
	"bds09as": func(d []byte) (interface{}, error) { return bds09.ReadAirborneVelocityAirSpeedSupersonic(d) },
	"bds10":   func(d []byte) (interface{}, error) { return bds10.ReadDataLinkCapabilityReport(d) },
	"bds17":   func(d []byte) (interface{}, error) { return bds17.ReadCommonUsageGICBCapabilityReport(d) },
	"bds20":   func(d []byte) (interface{}, error) { return bds20.ReadAircraftIdentification(d) },
	"bds30":   func(d []byte) (interface{}, error) { return bds30.ReadACASResolutionAdvisory(d) },
	"bds40":   func(d []byte) (interface{}, error) { return bds40.ReadSelectedVerticalIntention(d) },
	"bds44":   func(d []byte) (interface{}, error) { return bds44.ReadMeteorologicalRoutineAirReport(d) },
	"bds44v0": func(d []byte) (interface{}, error) { return bds44.ReadMeteorologicalRoutineAirReportV0(d) },
	"bds44v1": func(d []byte) (interface{}, error) { return bds44.ReadMeteorologicalRoutineAirReportV1(d) },
	"bds44v2": func(d []byte) (interface{}, error) { return bds44.ReadMeteorologicalRoutineAirReportV2(d) },
	"bds45":   func(d []byte) (interface{}, error) { return bds45.ReadMeteorologicalHazardReport(d) },
	"bds45v0": func(d []byte) (interface{}, error) { return bds45.ReadMeteorologicalHazardReportV0(d) },
	"bds45v1": func(d []byte) (interface{}, error) { return bds45.ReadMeteorologicalHazardReportV1(d) },
	"bds50":   func(d []byte) (interface{}, error) { return bds50.ReadTrackAndTurnReport(d) },
	"bds60":   func(d []byte) (interface{}, error) { return bds60.ReadHeadingAndSpeedReport(d) },
	"bds61":   func(d []byte) (interface{}, error) { return bds61.ReadAircraftStatus(d) },
	"bds61n":  func(d []byte) (interface{}, error) { return bds61.ReadAircraftStatusNoInformation(d) },
	"bds61e":  func(d []byte) (interface{}, error) { return bds61.ReadAircraftStatusEmergency(d) },
	"bds61a":  func(d []byte) (interface{}, error) { return bds61.ReadAircraftStatusACAS(d) },
	"bds62":   func(d []byte) (interface{}, error) { return bds62.ReadTargetStateAndStatus(d) },
	"bds62t0": func(d []byte) (interface{}, error) { return bds62.ReadTargetStateAndStatus0(d) },
	"bds62t1": func(d []byte) (interface{}, error) { return bds62.ReadTargetStateAndStatus1(d) },
	"bds65":   func(d []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatus(d) },
	"bds65v0": func(d []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusADSB0(d) },
	"bds65a1": func(d []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusAirborneADSB1(d) },
	"bds65a2": func(d []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusAirborneADSB2(d) },
	"bds65s1": func(d []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusSurfaceADSB1(d) },
	"bds65s2": func(d []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusSurfaceADSB2(d) },
	"ra":      func(d []byte) (interface{}, error) { return ra.ReadResolutionAdvisory(d) },
}

var errTuple = tuple{"ERR"}

func coherent(m interface{}) int64 {
	c, ok := m.(interface{ CheckCoherency() error })
	if !ok {
		return -1
	}
	return b2i(c.CheckCoherency() == nil)
}

// raTuple is the projection of a resolution advisory
func raTuple(v reflect.Value) tuple {
	r := tuple{}
	active := core(v.FieldByName("ActiveRA"))
	if !active.IsValid() {
		r = append(r, "NIL")
	} else {
		kind := active.Type().Name()
		r = append(r, kind)
		// The declared type and the type of the content must agree
		if a, ok := v.FieldByName("ActiveRA").Interface().(rafields.ActiveResolutionAdvisory); ok {
			r = append(r, int64(a.GetType()))
		}
		for _, p := range layoutPaths[kind] {
			r = append(r, scalar(path(active, p)))
		}
	}
	for _, p := range layoutPaths["ResolutionAdvisory"] {
		r = append(r, scalar(path(v, p)))
	}
	// The identity of the threat: -1 when absent
	if f := v.FieldByName("ThreatIdentityAddress"); f.IsValid() && !f.IsNil() {
		r = append(r, scalar(f))
	} else {
		r = append(r, int64(-1))
	}
	if f := v.FieldByName("ThreatIdentityAltitude"); f.IsValid() && !f.IsNil() {
		r = append(r, scalar(path(f, "AltitudeStatus")), scalar(path(f, "AltitudeInFeet")))
	} else {
		r = append(r, int64(-1), int64(-1))
	}
	if f, ok := v.FieldByName("ThreatIdentityRange").Interface().(*rafields.ThreatIdentityRange); ok && f != nil {
		r = append(r, int64(*f), milli(f.GetRange(), 1000))
	} else {
		r = append(r, int64(-1), int64(-1))
	}
	if f, ok := v.FieldByName("ThreatIdentityBearing").Interface().(*rafields.ThreatIdentityBearing); ok && f != nil {
		r = append(r, int64(*f), int64(f.GetBearing()))
	} else {
		r = append(r, int64(-1), int64(-1))
	}
	return r
}

// content is the projection of the content of a message (without the elements added by the ADS-B level)
func content(m interface{}) tuple {
	kind := tag(m)
	switch kind {
	case "AirbornePositionType0", "AirbornePositionV0", "AirbornePositionV1", "AirbornePositionV2":
		kind = "AirbornePosition"
	case "SurfacePositionV0", "SurfacePositionV1", "SurfacePositionV2":
		kind = "SurfacePosition"
	case "ResolutionAdvisory":
		return append(tuple{kind}, raTuple(core(reflect.ValueOf(m)))...)
	case "ACASResolutionAdvisory", "AircraftStatusACAS":
		v := core(reflect.ValueOf(m))
		r := tuple{kind}
		r = append(r, fieldsOf(m, kind)...)
		r = append(r, raTuple(v.FieldByName("ResolutionAdvisory"))...)
		return append(r, coherent(m))
	case "AircraftIdentificationAndCategory":
		v := core(reflect.ValueOf(m))
		f := v.FieldByName("Category")
		set := interface{}("NIL")
		if c, ok := f.Interface().(interface{ GetCategorySetName() string }); ok {
			set = c.GetCategorySetName()
		}
		return tuple{kind, scalar(v.FieldByName("FormatTypeCode")), set, scalar(f), scalar(v.FieldByName("Identification")), coherent(m)}
	}
	r := append(tuple{kind}, fieldsOf(m, kind)...)
	return append(r, coherent(m))
}

func registerId(m interface{}) interface{} {
	if c, ok := m.(interface{ GetRegister() register.Register }); ok {
		return c.GetRegister().GetId()
	}
	return "NONE"
}

// accessor calls a method without parameter; -1 when there is no such method
func accessor(m interface{}, name string) interface{} {
	f := reflect.ValueOf(m).MethodByName(name)
	if !f.IsValid() {
		return int64(-1)
	}
	return scalar(f.Call(nil)[0])
}

func address(set []interface{}) map[common.ICAOAddress]bool {
	if len(set) == 0 {
		return nil
	}
	r := map[common.ICAOAddress]bool{}
	for _, a := range set {
		r[common.ICAOAddress(num(a))] = true
	}
	return r
}

func num(x interface{}) int64 {
	switch v := x.(type) {
	case int64:
		return v
	case int:
		return int64(v)
	case float64:
		return int64(v)
	}
	panic(fmt.Sprintf("not a number: %v", x))
}

func bytesOf(x interface{}) []byte {
	switch v := x.(type) {
	case []byte:
		return append(make([]byte, 0, len(v)), v...)
	case []interface{}:
		r := make([]byte, len(v))
		for i := range v {
			r[i] = byte(num(v[i]))
		}
		return r
	}
	panic(fmt.Sprintf("not bytes: %v", x))
}

func micro(x interface{}) float64 { return float64(num(x)) / 1e6 }

// latlon projects a position, in micro degrees
func latlon(lat, lon float64) tuple { return tuple{"OK", milli(lat, 1e6), milli(lon, 1e6)} }

// Eval executes an operation
func Eval(op string, args tuple) tuple { return evalBetween(op, args, func() {}) }

// evalBetween executes an operation; between is called when the library has given its result, and before this result
// is looked at
func evalBetween(op string, args tuple, between func()) tuple {
	return evalWith(op, args, between, nil)
}

// evalWith executes an operation; the octets are given, when they are not nil, instead of a copy
func evalWith(op string, args tuple, between func(), given []byte) (out tuple) {
	defer func() {
		if r := recover(); r != nil {
			out = tuple{"PANIC", fmt.Sprint(r)}
		}
	}()

	// The input, and a copy to verify that it is not modified
	var data, before []byte
	in := func(i int) []byte {
		if given != nil {
			return given
		}
		data = bytesOf(args[i])
		// Some of the slices are a part of a longer array, that is not to be modified either
		if n := len(data); n > 0 && data[n-1]%4 == 3 {
			data = append(data, "what follows the message"...)[:n]
		}
		before = append([]byte{}, data[:cap(data)]...)
		return data
	}
	mutated := func() bool { return string(data[:cap(data)]) != string(before) }

	switch op {

	case "class":
		m, err := modesreader.ReadMessage(in(0))
		between()
		if err != nil {
			out = errTuple
			if v := reflect.ValueOf(m); m != nil && !(v.Kind() == reflect.Ptr && v.IsNil()) {
				out = tuple{"ERR-WITH-MESSAGE"}
			}
		} else {
			out = tuple{tag(m), int64(m.GetDownLinkFormat()), m.GetName()}
		}

	case "hdr":
		m, err := modesreader.ReadMessage(in(0))
		between()
		if err != nil {
			out = errTuple
		} else {
			kind := tag(m)
			out = append(tuple{kind}, fieldsOf(m, kind)...)
		}

	case "raw": // the octets that the frame keeps
		m, err := modesreader.ReadMessage(in(0))
		between()
		if err != nil {
			out = errTuple
		} else {
			v := core(reflect.ValueOf(m))
			out = tuple{tag(m), scalar(v.FieldByName("Payload")), scalar(v.FieldByName("Parity"))}
			if m.GetDownLinkFormat() != 24 {
				out = append(out, scalar(v.FieldByName("DownLinkFormat")), scalar(v.FieldByName("FirstField")))
			}
		}

	case "alt":
		m, err := modesreader.ReadMessage(in(0))
		between()
		if err != nil {
			out = errTuple
		} else {
			v := core(reflect.ValueOf(m))
			out = tuple{"ALT", scalar(v.FieldByName("AltitudeReportMethod")), scalar(v.FieldByName("Altitude"))}
		}

	case "idn":
		m, err := modesreader.ReadMessage(in(0))
		between()
		if err != nil {
			out = errTuple
		} else {
			var id interface {
				IsSpecialEmergency() bool
				IsSpecialRadiocommunicationFailure() bool
				IsSpecialUnlawfulInterference() bool
				IsSpecialInstructionNotReceived() bool
			}
			v := core(reflect.ValueOf(m)).FieldByName("Identity")
			id = v.Interface().(interface {
				IsSpecialEmergency() bool
				IsSpecialRadiocommunicationFailure() bool
				IsSpecialUnlawfulInterference() bool
				IsSpecialInstructionNotReceived() bool
			})
			out = tuple{scalar(v.FieldByName("Identity")), b2i(id.IsSpecialEmergency()), b2i(id.IsSpecialRadiocommunicationFailure()),
				b2i(id.IsSpecialUnlawfulInterference()), b2i(id.IsSpecialInstructionNotReceived())}
		}

	case "crc":
		d := in(0)
		m, err := modesreader.ReadMessage(d)
		between()
		if err != nil {
			out = errTuple
		} else {
			a, err := modesreader.CheckCRC(m, d, address(args[1].([]interface{})), address(args[2].([]interface{})))
			if err != nil {
				out = tuple{"REJ"}
			} else {
				out = tuple{"OK", int64(a)}
			}
		}

	case "crclen": // the parity of other octets than the ones of the frame: first octet of the frame, octets
		frame := make([]byte, 14)
		frame[0] = byte(num(args[0]))
		if n := frame[0] >> 3; n < 16 {
			frame = frame[:7]
		}
		m, err := modesreader.ReadMessage(frame)
		if err != nil {
			return errTuple
		}
		_, err = modesreader.CheckCRC(m, in(1), nil, nil)
		between()
		out = tuple{"OK"}
		if err != nil {
			out = tuple{"REJ"}
		}

	case "rcv":
		out = received(args, in, between)

	case "reg":
		m, err := readers[args[0].(string)](in(1))
		between()
		if err != nil {
			out = errTuple
		} else {
			out = content(m)
		}

	case "get": // the accessors of a register
		m, err := readers[args[0].(string)](in(1))
		between()
		if err != nil {
			out = errTuple
		} else {
			out = tuple{"GET", registerId(m), accessor(m, "GetSubtype"), accessor(m, "GetADSBLevel"), accessor(m, "GetSource"), accessor(m, "GetTurbulenceStatus")}
		}

	case "adsb", "adsbtype", "integ":
		off := 0
		m, err := adsbreader.ReadADSBMessage(adsb.ADSBVersion(num(args[off])), num(args[off+1]) != 0, num(args[off+2]) != 0, in(off+3))
		between()
		if err != nil {
			out = errTuple
		} else if op == "adsb" {
			out = content(m)
		} else if op == "adsbtype" {
			out = tuple{tag(m), int64(m.GetADSBVersion())}
		} else {
			kind := tag(m)
			out = append(tuple{kind}, fieldsOf(m, kind)...)
		}

	case "gs":
		m, err := bds09.ReadAirborneVelocity(in(0))
		between()
		if err != nil {
			out = errTuple
		} else {
			switch g := m.(type) {
			case interface {
				GetSpeed() (uint32, error)
				GetTrack() (float32, error)
			}:
				out = tuple{"GS", int64(-1), int64(-1)}
				if s, err := g.GetSpeed(); err == nil {
					out[1] = int64(s)
				}
				if t, err := g.GetTrack(); err == nil {
					out[2] = milli(float64(t), 1000)
				}
			default:
				out = tuple{"AIRSPEED"}
			}
		}

	case "commb":
		ms, err := commb.ReadCommBMessage(in(0))
		between()
		if err != nil {
			out = errTuple
		} else {
			out = tuple{"OK"}
			for _, m := range ms {
				out = append(out, registerId(m))
			}
		}

	case "commbv":
		ms, err := commb.ReadCommBMessage(in(0))
		between()
		if err != nil {
			out = errTuple
		} else {
			out = tuple{"OK"}
			for _, m := range ms {
				out = append(out, content(m))
			}
		}

	case "air": // global airborne: even latitude, even longitude, odd latitude, odd longitude, even is the last
		lat, lon, err := geo.GetCPRAirborneGlobalPosition(uint32(num(args[0])), uint32(num(args[1])), uint32(num(args[2])), uint32(num(args[3])), num(args[4]) != 0)
		if err != nil {
			out = errTuple
		} else {
			out = latlon(lat, lon)
		}

	case "surf": // as air, plus the reference, in micro degrees
		lat, lon, err := geo.GetCPRSurfaceGlobalPosition(uint32(num(args[0])), uint32(num(args[1])), uint32(num(args[2])), uint32(num(args[3])), num(args[4]) != 0,
			micro(args[5]), micro(args[6]))
		if err != nil {
			out = errTuple
		} else {
			out = latlon(lat, lon)
		}

	case "airl": // local: latitude, longitude, odd, reference
		lat, lon := geo.GetCPRAirborneLocalPosition(uint32(num(args[0])), uint32(num(args[1])), micro(args[3]), micro(args[4]), num(args[2]) != 0)
		out = latlon(lat, lon)

	case "surfl":
		lat, lon := geo.GetCPRSurfaceLocalPosition(uint32(num(args[0])), uint32(num(args[1])), micro(args[3]), micro(args[4]), num(args[2]) != 0)
		out = latlon(lat, lon)

	case "wild": // codes and references that are not possible ones: the positions are not looked at
		c := make([]uint32, 4)
		for i, s := range args[0].([]interface{}) {
			n, _ := strconv.ParseUint(s.(string), 10, 32)
			c[i] = uint32(n)
		}
		x := make([]float64, 4)
		for i, s := range args[1].([]interface{}) {
			x[i], _ = strconv.ParseFloat(s.(string), 64)
		}
		for _, last := range []bool{false, true} {
			_, _, _ = geo.GetCPRAirborneGlobalPosition(c[0], c[1], c[2], c[3], last)
			_, _, _ = geo.GetCPRSurfaceGlobalPosition(c[0], c[1], c[2], c[3], last, x[0], x[1])
			_, _ = geo.GetCPRAirborneLocalPosition(c[0], c[1], x[0], x[1], last)
			_, _ = geo.GetCPRSurfaceLocalPosition(c[0], c[1], x[0], x[1], last)
		}
		_ = geo.ComputeGroundDistance(x[0], x[1], x[2], x[3])
		out = tuple{"RETURNS"}

	case "dist": // decimetres
		out = tuple{"D", milli(geo.ComputeGroundDistance(micro(args[0]), micro(args[1]), micro(args[2]), micro(args[3])), 10)}

	case "text":
		// kind of source, arguments
		out = textOf(args, in, between)

	case "cli": // the program alone on a line (to show a violation again)
		l := string(bytesOf(args[1]))
		t, status := run(os.Getenv("MODES_CLI"), "-adsb_reader_level", strconv.Itoa(int(num(args[0]))), l)
		out = answers([]string{l}, t, status)[0]

	case "rlen": // a reader given data of any length
		_, err := readers[args[0].(string)](in(1))
		between()
		out = tuple{"OK"}
		if err != nil {
			out = errTuple
		}

	case "adsblen":
		_, err := adsbreader.ReadADSBMessage(adsb.ADSBVersion(num(args[0])), false, false, in(1))
		between()
		out = tuple{"OK"}
		if err != nil {
			out = errTuple
		}

	case "commblen":
		_, err := commb.ReadCommBMessage(in(0))
		between()
		out = tuple{"OK"}
		if err != nil {
			out = errTuple
		}

	default:
		if out = block(op, args, in, between); out == nil {
			panic("unknown operation " + op)
		}
	}
	if data != nil && mutated() {
		return tuple{"MUT"}
	}
	return out
}

// received gives what one transmission tells a receiver: frame, version, supplements, known addresses, known interrogators
func received(args tuple, in func(int) []byte, between func()) tuple {
	d := in(0)
	m, err := modesreader.ReadMessage(d)
	between()
	if err != nil {
		return tuple{errTuple}
	}
	a, err := modesreader.CheckCRC(m, d, address(args[4].([]interface{})), address(args[5].([]interface{})))
	if err != nil {
		return tuple{tuple{"REJ"}}
	}
	between()
	out := tuple{tuple{"OK", int64(a)}}
	add := func(op string, args ...interface{}) {
		r := Eval(op, args)
		out = append(out, r)
	}
	squitter := func(data []byte) {
		m, err := adsbreader.ReadADSBMessage(adsb.ADSBVersion(num(args[1])), num(args[2]) != 0, num(args[3]) != 0, data)
		between()
		if err != nil {
			out = append(out, errTuple)
			return
		}
		out = append(out, content(m))
		if kind := tag(m); len(data) > 0 && (data[0]>>3 <= 22 && data[0]>>3 != 19 && data[0]>>3 > 4 || data[0]>>3 == 0) {
			out = append(out, append(tuple{kind}, fieldsOf(m, kind)...))
		}
	}
	switch x := m.(type) {
	case *messages.MessageDF17:
		squitter(x.MessageExtendedSquitter)
	case *messages.MessageDF18:
		if x.ControlField == 0 || x.ControlField == 1 {
			squitter(x.MessageExtendedSquitter)
		}
	case *messages.MessageDF20:
		add("alt", d)
		add("commbv", clone(x.MessageCommB))
	case *messages.MessageDF21:
		add("idn", d)
		add("commbv", clone(x.MessageCommB))
	case *messages.MessageDF16:
		add("alt", d)
		if len(x.MessageACAS) == 7 && x.MessageACAS[0] == 0x30 {
			add("reg", "ra", clone(x.MessageACAS[1:]))
		}
	case *messages.MessageDF0, *messages.MessageDF4:
		add("alt", d)
	case *messages.MessageDF5:
		add("idn", d)
	case *messages.MessageDF11:
		out = append(out, tuple{"AA", int64(x.AddressAnnounced.Address)})
	}
	return out
}

// textOf gives the text of a message, as a list of lines
func textOf(args tuple, in func(int) []byte, between func()) tuple {
	var p interface{ ToString() string }
	switch args[0].(string) {
	case "frame":
		m, err := modesreader.ReadMessage(in(1))
		between()
		if err != nil {
			return errTuple
		}
		p = m
	case "adsb":
		m, err := adsbreader.ReadADSBMessage(adsb.ADSBVersion(num(args[1])), num(args[2]) != 0, num(args[3]) != 0, in(4))
		between()
		if err != nil {
			return errTuple
		}
		p = m
	default:
		m, err := readers[args[0].(string)](in(1))
		between()
		if err != nil {
			return errTuple
		}
		q, ok := m.(interface{ ToString() string })
		if !ok {
			return tuple{"NOTEXT"}
		}
		p = q
	}
	between()
	return lines(p.ToString())
}

var unit = regexp.MustCompile(`^([-+0-9.eE]+|NaN|[-+]Inf) (\((?:knots|degrees)\))$`)

// lines cuts a text in its lines; each line is a triple label, text of the value, number
func lines(s string) tuple {
	out := tuple{"T"}
	s = strings.NewReplacer("\u03bc", "mu", "\u2265", ">=").Replace(s)
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		label, value := l, ""
		if i := strings.Index(l, ": "); i >= 0 {
			label, value = l[:i], l[i+2:]
		} else if strings.HasSuffix(l, ":") {
			label = l[:len(l)-1]
		} else if i := strings.Index(l, "  "); i >= 0 {
			label, value = l[:i], l[i:]
		}
		var text, n interface{}
		if m := unit.FindStringSubmatch(strings.TrimSpace(value)); m != nil {
			// a value that is computed
			f, err := strconv.ParseFloat(m[1], 64)
			if err != nil {
				f = math.NaN()
			}
			text, n = m[2], milli(f, 1000)
		} else {
			text, n = number(strings.TrimSpace(value))
		}
		out = append(out, tuple{strings.TrimSpace(label), text, n})
	}
	return out
}

var _ messages.ModeSMessage
