package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	m "github.com/Eyevinn/dash-mpd/mpd"
)

// ---------------------------------------------------------------- operations
type bArg struct {
	V string   `json:"v"`
	C []int    `json:"c"`
	W []string `json:"w"`
}

func argOf(v string) bArg { return bArg{v, attrCodes(v), attrWords(v)} }

func (a bArg) u32() uint32 { n, _ := strconv.ParseUint(a.V, 10, 32); return uint32(n) }
func (a bArg) num() int    { n, _ := strconv.Atoi(a.V); return n }

type bOp struct {
	Op string `json:"op"`
	F  string `json:"f"`
	X  int    `json:"x"`
	Y  int    `json:"y"`
	N  string `json:"n"`
	A  []bArg `json:"a"`
}

func bNew(f string, a []bArg) any {
	switch f {
	case "NewMPD":
		return m.NewMPD(a[0].V)
	case "NewPeriod":
		return m.NewPeriod()
	case "NewAdaptationSet":
		return m.NewAdaptationSet()
	case "NewAdaptationSetWithParams":
		return m.NewAdaptationSetWithParams(a[0].V, a[1].V, a[2].V == "true", a[3].u32())
	case "NewRepresentation":
		return m.NewRepresentation()
	case "NewRepresentationWithID":
		return m.NewRepresentationWithID(a[0].V, a[1].V, a[2].V, a[3].num())
	case "NewAudioRepresentation":
		return m.NewAudioRepresentation(a[0].V, a[1].V, a[2].V, a[3].num(), a[4].num())
	case "NewVideoRepresentation":
		return m.NewVideoRepresentation(a[0].V, a[1].V, a[2].V, a[3].V, a[4].num(), a[5].num(), a[6].num())
	case "NewSubRepresentation":
		return m.NewSubRepresentation()
	case "NewSegmentTemplate":
		return m.NewSegmentTemplate()
	case "NewSegmentList":
		return m.NewSegmentList()
	case "NewSegmentTimeline":
		return m.NewSegmentTimeline()
	case "NewInitializationSet":
		return m.NewInitializationSet()
	case "NewPreselection":
		return m.NewPreselection()
	case "NewContentProtection":
		return m.NewContentProtection()
	case "NewProducerReferenceTime":
		return m.NewProducerReferenceTime()
	case "NewUIntVWithID":
		return m.NewUIntVWithID()
	case "NewDescriptor":
		return m.NewDescriptor(a[0].V, a[1].V, a[2].V)
	case "NewRole":
		return m.NewRole(a[0].V)
	case "NewBaseURL":
		return m.NewBaseURL(a[0].V)
	}
	panic("no function " + f)
}

// fieldFor finds the field that the element or attribute n is in
func fieldFor(v reflect.Value, n string) reflect.Value {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			if x := fieldFor(v.Field(i), n); x.IsValid() {
				return x
			}
			continue
		}
		name, _, _ := strings.Cut(f.Tag.Get("xml"), ",")
		if name == n && f.Name != "XMLName" {
			return v.Field(i)
		}
	}
	return reflect.Value{}
}

// bSet puts a value into a field, behind a new pointer or through the old one
func bSet(f reflect.Value, a bArg, poke bool) {
	if f.Kind() == reflect.Pointer {
		if poke {
			bSet(f.Elem(), a, false)
			return
		}
		switch f.Interface().(type) {
		case *m.Duration:
			s := strings.TrimSuffix(strings.TrimPrefix(a.V, "PT"), "S")
			if n, err := strconv.Atoi(s); err == nil {
				f.Set(reflect.ValueOf(m.Seconds2DurPtr(n)))
			} else {
				x, _ := strconv.ParseFloat(s, 64)
				f.Set(reflect.ValueOf(m.Seconds2DurPtrFloat64(x)))
			}
		case *uint32:
			f.Set(reflect.ValueOf(m.Ptr(a.u32())))
		case *string:
			f.Set(reflect.ValueOf(m.Ptr(a.V)))
		case *bool:
			f.Set(reflect.ValueOf(m.Ptr(a.V == "true")))
		case *m.UIntVectorType:
			f.Set(reflect.ValueOf(m.Ptr(m.UIntVectorType(a.V))))
		default:
			panic("no pointer to " + f.Type().String())
		}
		return
	}
	switch {
	case f.Type() == reflect.TypeFor[m.Duration]():
		s := strings.TrimSuffix(strings.TrimPrefix(a.V, "PT"), "S")
		x, _ := strconv.ParseFloat(s, 64)
		f.SetInt(int64(time.Duration(x*1e6+0.5) * time.Microsecond))
	case f.Kind() == reflect.String:
		f.SetString(a.V)
	case f.Kind() == reflect.Bool:
		f.SetBool(a.V == "true")
	default:
		f.SetUint(uint64(a.u32()))
	}
}

type bSess struct{ objs []any }

func (s *bSess) el(i int) reflect.Value { return reflect.ValueOf(s.objs[i-1]).Elem() }

func (s *bSess) do(o bOp) {
	switch o.Op {
	case "new":
		s.objs = append(s.objs, bNew(o.F, o.A))
	case "add":
		p, c := s.objs[o.X-1], s.objs[o.Y-1]
		switch p := p.(type) {
		case *m.MPD:
			if c, ok := c.(*m.Period); ok {
				p.AppendPeriod(c)
				return
			}
		case *m.Period:
			if c, ok := c.(*m.AdaptationSetType); ok && o.N == "AdaptationSet" {
				p.AppendAdaptationSet(c)
				return
			}
		case *m.AdaptationSetType:
			if c, ok := c.(*m.RepresentationType); ok {
				p.AppendRepresentation(c)
				return
			}
		case *m.RepresentationType:
			if c, ok := c.(*m.SubRepresentationType); ok {
				p.AppendSubRepresentation(c)
				return
			}
		}
		f := fieldFor(s.el(o.X), o.N)
		if f.Kind() == reflect.Slice {
			f.Set(reflect.Append(f, reflect.ValueOf(c)))
		} else {
			f.Set(reflect.ValueOf(c))
		}
	case "profile":
		f := s.el(o.X).FieldByName("Profiles")
		f.Set(reflect.ValueOf(f.Interface().(m.ListOfProfilesType).AddProfile(o.A[0].V)))
	case "timescale":
		s.objs[o.X-1].(interface{ SetTimescale(uint32) }).SetTimescale(o.A[0].u32())
	case "attr", "poke":
		bSet(fieldFor(s.el(o.X), o.N), o.A[0], o.Op == "poke")
	case "segbase":
		x := s.objs[o.X-1].(*m.RepresentationType)
		x.SetSegmentBase(o.A[0].u32(), o.A[1].u32(), o.A[2].V == "true")
		s.objs = append(s.objs, x.SegmentBase, x.SegmentBase.Initialization)
	default:
		panic("no operation " + o.Op)
	}
}

// ---------------------------------------------------------------- sessions
type bTs struct {
	At int   `json:"at"`
	X  int   `json:"x"`
	C  []int `json:"c"`
}

type bRec struct {
	ID  string `json:"id"`
	Ops []bOp  `json:"ops"`
	Ts  []bTs  `json:"ts"`
	Out *rnode `json:"out"`
	Pan string `json:"pan"`
	Err string `json:"err"`
	WF  string `json:"wf"`
	Txt string `json:"txt"`
}

func bPlay(id string, ops []bOp, indent string) bRec {
	rec := bRec{ID: id, Ops: ops, Ts: []bTs{}, Out: emptyNode}
	s := &bSess{}
	out := ""
	rec.Pan = guard(func() string { b, _ := json.Marshal(ops); return string(b) }, func() {
		for i, o := range ops {
			s.do(o)
			for x := range s.objs {
				if g, ok := s.objs[x].(interface{ GetTimescale() uint32 }); ok && (i == len(ops)-1 || o.Op == "timescale") {
					rec.Ts = append(rec.Ts, bTs{i + 1, x + 1, attrCodes(strconv.FormatUint(uint64(g.GetTimescale()), 10))})
				}
			}
		}
		var err error
		if out, err = s.objs[0].(*m.MPD).WriteToString(indent, false); err != nil {
			rec.Err = errStr(err)
		}
	})
	if rec.Pan != "" || rec.Err != "" {
		return rec
	}
	rec.Txt = cut(out, 1500)
	d, err := refParse(out)
	if err != nil {
		rec.WF = errStr(err)
		return rec
	}
	rec.Out = shallow(d.Root, 0)
	return rec
}

func buildReplay(args []string) error {
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	n := 0
	err = readCases(args[0], func(raw []byte) error {
		var c struct {
			Ops []bOp `json:"ops"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		n++
		w.put(bPlay(fmt.Sprintf("enumerated:%d", n), c.Ops, []string{"", "  "}[n%2]))
		return nil
	})
	if err != nil {
		return err
	}
	return w.close()
}

// where the elements a function makes can go
var bPlaces = map[string][]string{ // parent function prefix -> element=function prefix
	"MPD":             {"Period=Period", "BaseURL=BaseURL", "UTCTiming=Descriptor", "EssentialProperty=Descriptor", "SupplementalProperty=Descriptor", "InitializationSet=InitializationSet", "InitializationGroup=UIntVWithID", "InitializationPresentation=UIntVWithID", "ContentProtection=ContentProtection"},
	"Period":          {"AdaptationSet=AdaptationSet", "AdaptationSet=AdaptationSet", "EmptyAdaptationSet=AdaptationSet", "BaseURL=BaseURL", "Preselection=Preselection", "SegmentTemplate=SegmentTemplate", "SegmentList=SegmentList", "SupplementalProperty=Descriptor", "AssetIdentifier=Descriptor"},
	"AdaptationSet":   {"Representation=Representation", "Representation=Representation", "BaseURL=BaseURL", "Role=Descriptor", "Role=Descriptor", "Accessibility=Descriptor", "Viewpoint=Descriptor", "Rating=Descriptor", "EssentialProperty=Descriptor", "SupplementalProperty=Descriptor", "AudioChannelConfiguration=Descriptor", "ContentProtection=ContentProtection", "ProducerReferenceTime=ProducerReferenceTime", "SegmentTemplate=SegmentTemplate", "SegmentList=SegmentList"},
	"Representation":  {"SubRepresentation=SubRepresentation", "BaseURL=BaseURL", "EssentialProperty=Descriptor", "AudioChannelConfiguration=Descriptor", "ContentProtection=ContentProtection", "SegmentTemplate=SegmentTemplate", "SegmentList=SegmentList", "ProducerReferenceTime=ProducerReferenceTime"},
	"SegmentTemplate": {"SegmentTimeline=SegmentTimeline"},
	"SegmentList":     {"SegmentTimeline=SegmentTimeline"},
	"Preselection":    {"Role=Descriptor", "Accessibility=Descriptor"},
}

var bMakers = map[string][]string{
	"Period": {"NewPeriod"}, "AdaptationSet": {"NewAdaptationSet", "NewAdaptationSetWithParams", "NewAdaptationSetWithParams"},
	"Representation":    {"NewRepresentation", "NewRepresentationWithID", "NewAudioRepresentation", "NewVideoRepresentation"},
	"SubRepresentation": {"NewSubRepresentation"}, "SegmentTemplate": {"NewSegmentTemplate"}, "SegmentList": {"NewSegmentList"},
	"SegmentTimeline": {"NewSegmentTimeline"}, "InitializationSet": {"NewInitializationSet"}, "Preselection": {"NewPreselection"},
	"ContentProtection": {"NewContentProtection"}, "ProducerReferenceTime": {"NewProducerReferenceTime"}, "UIntVWithID": {"NewUIntVWithID"},
	"Descriptor": {"NewDescriptor", "NewDescriptor", "NewRole"}, "BaseURL": {"NewBaseURL"},
}

// attributes that are set through pointers
var bAttrs = map[string][]string{
	"MPD":    {"mediaPresentationDuration", "minBufferTime", "timeShiftBufferDepth", "minimumUpdatePeriod", "type"},
	"Period": {"start", "duration", "bitstreamSwitching"}, "AdaptationSet": {"id"}, "Representation": {"qualityRanking", "audioSamplingRate"},
	"SubRepresentation": {"level"}, "SegmentTemplate": {"startNumber", "duration"},
}

func bArgs(r *rand.Rand, f string) []bArg {
	str := func() bArg {
		return argOf([]string{"", "a", "video", "avc1.64001e", "urn:x:y", "a&b<c>\"d'", "é😀", " sp ", "a,b", "1", "0"}[r.Intn(11)])
	}
	num := func() bArg {
		return argOf([]string{"0", "1", "2", "25", "48000", "300000", "2147483647", "2147483648", "4294967295", strconv.Itoa(r.Intn(1 << 30))}[r.Intn(10)])
	}
	switch f {
	case "NewMPD":
		return []bArg{argOf([]string{"static", "dynamic"}[r.Intn(2)])}
	case "NewAdaptationSetWithParams":
		return []bArg{str(), str(), argOf([]string{"true", "false"}[r.Intn(2)]), num()}
	case "NewRepresentationWithID":
		return []bArg{str(), str(), str(), num()}
	case "NewAudioRepresentation":
		return []bArg{str(), str(), str(), num(), num()}
	case "NewVideoRepresentation":
		return []bArg{str(), str(), str(), str(), num(), num(), num()}
	case "NewDescriptor":
		return []bArg{str(), str(), str()}
	case "NewRole", "NewBaseURL":
		return []bArg{str()}
	}
	return []bArg{}
}

func bSession(r *rand.Rand, n int) []bOp {
	ops := []bOp{{Op: "new", F: "NewMPD", A: bArgs(r, "NewMPD")}}
	kind := []string{"MPD"} // per element
	isPtr := map[string]bool{"1.type": true}
	pick := func(ks ...string) int { // an element of one of the kinds, late ones preferred
		for try := 0; try < 10; try++ {
			i := len(kind) - 1 - r.Intn(min(len(kind), 12))
			if r.Intn(3) == 0 {
				i = r.Intn(len(kind))
			}
			for _, k := range ks {
				if kind[i] == k {
					return i + 1
				}
			}
		}
		return 0
	}
	attached := map[int]bool{}
	for len(ops) < n {
		switch r.Intn(12) {
		case 0, 1, 2, 3, 4, 5: // something new somewhere
			x := pick("MPD", "Period", "AdaptationSet", "Representation", "SegmentTemplate", "SegmentList", "Preselection")
			if len(kind) < 4 {
				x = len(kind)
			}
			if x == 0 || len(bPlaces[kind[x-1]]) == 0 {
				continue
			}
			pl := bPlaces[kind[x-1]]
			at, what, _ := strings.Cut(pl[r.Intn(len(pl))], "=")
			if len(kind) < 4 {
				at, what, _ = strings.Cut(pl[0], "=")
			}
			f := bMakers[what][r.Intn(len(bMakers[what]))]
			ops = append(ops, bOp{Op: "new", F: f, A: bArgs(r, f)})
			kind = append(kind, what)
			if f == "NewAudioRepresentation" {
				isPtr[fmt.Sprint(len(kind), ".audioSamplingRate")] = true
			}
			if r.Intn(6) > 0 {
				ops = append(ops, bOp{Op: "add", X: x, Y: len(kind), N: at, A: []bArg{}})
				attached[len(kind)] = true
			}
		case 6: // put what was left aside (or another place for what is already somewhere)
			y := 1 + r.Intn(len(kind))
			x := pick("MPD", "Period", "AdaptationSet", "Representation")
			if x == 0 || attached[y] && r.Intn(4) > 0 {
				continue
			}
			for _, s := range bPlaces[kind[x-1]] {
				if at, what, _ := strings.Cut(s, "="); what == kind[y-1] {
					ops = append(ops, bOp{Op: "add", X: x, Y: y, N: at, A: []bArg{}})
					attached[y] = true
					break
				}
			}
		case 7:
			if x := pick("MPD", "AdaptationSet", "Representation", "UIntVWithID", "SubRepresentation", "Preselection"); x > 0 {
				ops = append(ops, bOp{Op: "profile", X: x, A: []bArg{argOf([]string{"urn:mpeg:dash:profile:isoff-live:2011", "urn:a", "urn:ab", "urn:b", "a", "u", "urn:A"}[r.Intn(7)])}})
			}
		case 8:
			if x := pick("SegmentTemplate", "SegmentList", "SegmentBase"); x > 0 {
				ops = append(ops, bOp{Op: "timescale", X: x, A: []bArg{argOf([]string{"1", "1", "0", "2", "1000", "90000", "90000", "4294967295"}[r.Intn(8)])}})
				isPtr[fmt.Sprint(x, ".timescale")] = ops[len(ops)-1].A[0].V != "1"
			}
		case 9:
			if x := pick("Representation"); x > 0 {
				sz := func() string {
					return []string{"1", "2", "700", "65536", "99999", "2147483648", "4294967295", strconv.Itoa(1 + r.Intn(1<<20))}[r.Intn(8)]
				}
				ops = append(ops, bOp{Op: "segbase", X: x, A: []bArg{argOf(sz()), argOf(sz()), argOf([]string{"true", "false"}[r.Intn(2)])}})
				kind = append(kind, "SegmentBase", "URL")
			}
		case 10, 11:
			x := pick("MPD", "Period", "AdaptationSet", "Representation", "SubRepresentation", "SegmentTemplate", "SegmentList", "SegmentBase")
			if x == 0 {
				continue
			}
			as := bAttrs[kind[x-1]]
			if r.Intn(2) == 0 && isPtr[fmt.Sprint(x, ".timescale")] {
				as = []string{"timescale"}
			}
			if len(as) == 0 {
				continue
			}
			n := as[r.Intn(len(as))]
			v := ""
			switch {
			case n == "type":
				v = []string{"static", "dynamic"}[r.Intn(2)]
			case n == "bitstreamSwitching":
				v = []string{"true", "false"}[r.Intn(2)]
			case strings.HasSuffix(n, "Duration") || kind[x-1] == "MPD" || kind[x-1] == "Period":
				v = "PT" + []string{"0", "1", "2", "10", "3600", "0.5", "1.25", "33.333", "86400", "100000.001"}[r.Intn(10)] + "S"
			default:
				v = []string{"0", "1", "7", "4294967295"}[r.Intn(4)]
			}
			op := "attr"
			if key := fmt.Sprint(x, ".", n); isPtr[key] && r.Intn(2) == 0 {
				op = "poke"
			} else if n == "timescale" {
				continue
			} else {
				isPtr[key] = true
			}
			ops = append(ops, bOp{Op: op, X: x, N: n, A: []bArg{argOf(v)}})
		}
	}
	return ops
}

func buildRecord(args []string) error {
	w, err := newRecWriter(args[0])
	if err != nil {
		return err
	}
	r := newRng(2201)
	for i := 0; i < scale(2500, 20000); i++ {
		w.put(bPlay(fmt.Sprintf("session:%d", i), bSession(r, 5+r.Intn(scale(40, 90))), indentOf(r)))
	}
	return w.close()
}

// ---------------------------------------------------------------- single calls
func profileReplay(args []string) error {
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	sum := summary{Summary: true}
	bad := 0
	err = readCases(args[0], func(raw []byte) error {
		var c struct {
			L, P octs
			R    []octs
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		sum.Cases++
		sum.Checks++
		l, p, got := c.L.text(), c.P.text(), ""
		pan := guard(func() string { return l + " + " + p }, func() { got = string(m.ListOfProfilesType(l).AddProfile(p)) })
		ok := pan == ""
		in := false
		for _, x := range c.R {
			in = in || x.text() == got
		}
		if !ok || !in {
			if bad++; bad <= 50 {
				w.put(mismatch{"adding a profile " + pan, l + " + " + p, got, c.R})
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	w.put(sum)
	return w.close()
}

func secondsRecord(args []string) error {
	w, err := newRecWriter(args[0])
	if err != nil {
		return err
	}
	r := newRng(2202)
	put := func(s string, whole bool) {
		ns := ""
		pan := guard(func() string { return "seconds " + s }, func() {
			var d *m.Duration
			if whole {
				n, err := strconv.Atoi(s)
				if err != nil {
					panic(err)
				}
				d = m.Seconds2DurPtr(n)
			} else {
				x, err := strconv.ParseFloat(s, 64)
				if err != nil {
					panic(err)
				}
				d = m.Seconds2DurPtrFloat64(x)
			}
			ns = strconv.FormatInt(int64(*d), 10)
		})
		w.put(map[string]any{"id": "seconds " + s, "s": octsOf(s), "ns": octsOf(ns), "whole": whole, "pan": pan})
	}
	for i := 0; i < scale(4000, 40000); i++ {
		n := r.Int63n(int64(1) << (1 + r.Intn(33))) // up to 2^33 s: 272 years
		sign := []string{"", "", "", "-"}[r.Intn(4)]
		put(sign+strconv.FormatInt(n, 10), true)
		n = r.Int63n(int64(1) << (1 + r.Intn(29)))
		f := ""
		for j := r.Intn(8); j > 0; j-- {
			f += string(rune('0' + r.Intn(10)))
		}
		if f != "" {
			f = "." + f
		}
		// a half microsecond may go either way: the numeral is not a float64 itself
		if len(f) == 8 && f[7] == '5' {
			f = f[:7]
		}
		put(sign+strconv.FormatInt(n, 10)+f, false)
	}
	for _, s := range []string{"0", "0.0000004", "0.0000006", "0.000001", "0.999999", "0.9999996", "1.0000005", "59.9999999", "-0.000001", "8589934591"} {
		put(s, false)
	}
	return w.close()
}

func init() {
	register("build-replay", buildReplay)
	register("build-record", buildRecord)
	register("profile-replay", profileReplay)
	register("seconds-record", secondsRecord)
}
