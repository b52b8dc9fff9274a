package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"

	m "github.com/Eyevinn/dash-mpd/mpd"
	x "github.com/Eyevinn/dash-mpd/xml"
)

type poolObs struct {
	K string `json:"k"`
	D string `json:"d"`
}

type poolRec struct {
	ID      string    `json:"id"`
	Acts    []string  `json:"acts"`
	Pan     string    `json:"pan"`
	Changed string    `json:"changed"`
	Obs     []poolObs `json:"obs"`
	Out     string    `json:"out,omitempty"`
}

// outcome is what a write did: what the sink got, and whether an error was reported.
func outcome(b []byte, err error) string {
	e := "ok"
	if err != nil {
		e = "error"
	}
	return e + " " + digest(string(b))
}

// ---------------------------------------------------------------- values

type mText struct {
	XMLName x.Name `xml:"m"`
	Before  string `xml:"before"`
	Text    string `xml:",chardata"`
	Then    any    `xml:"then"`
	After   string `xml:"after"`
}

type panicky struct{ err bool }

var errMarshal = errors.New("marshal")

func (p panicky) MarshalXML(e *x.Encoder, start x.StartElement) error {
	_ = e.EncodeToken(start)
	_ = e.EncodeToken(x.StartElement{Name: x.Name{Space: "urn:p", Local: "in"}})
	if p.err {
		return errMarshal
	}
	panic("MarshalXML panics")
}

type panicText struct{}

func (panicText) MarshalText() ([]byte, error) { panic("MarshalText panics") }

// nestedWrite writes another document while it is written itself
type nestedWrite struct {
	d   *m.MPD
	out *[]byte
}

func (n nestedWrite) MarshalXML(e *x.Encoder, start x.StartElement) error {
	var b bytes.Buffer
	_, err := n.d.Write(&b, "\t", true)
	*n.out = append([]byte(nil), b.Bytes()...)
	if err != nil {
		return err
	}
	return e.EncodeElement("nested", start)
}

type plainT struct {
	XMLName x.Name   `xml:"urn:plain plain"`
	A       string   `xml:"a,attr"`
	B       string   `xml:"urn:q b,attr"`
	C       []string `xml:"x>c"`
	D       *plainT  `xml:"urn:other d"`
	E       string   `xml:"e"`
}

// ---------------------------------------------------------------- probes

type poolProbe struct {
	name  string
	run   func() ([]byte, error) // through the pool
	fresh func() ([]byte, error) // the same with an encoder of its own
}

// tokenProbe writes tokens without saying anything about the layout.
func tokenProbe(e *x.Encoder) error {
	n := func(s, l string) x.Name { return x.Name{Space: s, Local: l} }
	for _, t := range []x.Token{
		x.ProcInst{Target: "xml", Inst: []byte(`version="1.0"`)},
		x.StartElement{Name: n("urn:plain", "t"), Attr: []x.Attr{{Name: n("urn:k/a", "z"), Value: "1"}, {Name: n("urn:l/a", "z"), Value: "2"}}},
		x.StartElement{Name: n("urn:k/a", "u")}, x.CharData("text"), x.EndElement{Name: n("urn:k/a", "u")},
		x.StartElement{Name: n("", "w")}, x.EndElement{Name: n("", "w")}, x.Comment("c"),
		x.EndElement{Name: n("urn:plain", "t")},
	} {
		if err := e.EncodeToken(t); err != nil {
			return err
		}
	}
	return e.Close()
}

func poolProbes(docs []*m.MPD) []poolProbe {
	var ps []poolProbe
	writeXML := func(name string, v any, indent string, header bool) {
		ps = append(ps, poolProbe{fmt.Sprintf("WriteXML %s %q %v", name, indent, header), func() ([]byte, error) {
			var b bytes.Buffer
			n, err := m.WriteXML(v, &b, indent, header)
			if n != b.Len() {
				return b.Bytes(), errors.New("count")
			}
			return b.Bytes(), err
		}, func() ([]byte, error) {
			var b bytes.Buffer
			if header {
				b.WriteString(x.Header)
			}
			e := x.NewEncoder(&b)
			e.Indent("", indent)
			err := e.Encode(v)
			return b.Bytes(), err
		}})
	}
	pl := &plainT{A: "1", B: "2", C: []string{"3", "4"}, D: &plainT{A: "5", E: "6"}, E: "7"}
	mt := &mText{Before: "b", Text: "mixed", Then: pl, After: "a"}
	for i, d := range docs {
		writeXML(fmt.Sprintf("doc%d", i), d, "", i%2 == 0)
		writeXML(fmt.Sprintf("doc%d", i), d, "  ", i%2 == 1)
		writeXML(fmt.Sprintf("doc%d", i), d, "\t", i%2 == 0)
	}
	writeXML("plain", pl, "", true)
	writeXML("plain", pl, " ", false)
	writeXML("mixed", mt, "", false)
	writeXML("mixed", mt, "  ", false)
	raw := func(name string, f func(e *x.Encoder) error) {
		ps = append(ps, poolProbe{name, func() ([]byte, error) {
			var b bytes.Buffer
			e := x.AcquireEncoder(&b)
			defer x.ReleaseEncoder(e)
			err := f(e)
			return b.Bytes(), err
		}, func() ([]byte, error) {
			var b bytes.Buffer
			err := f(x.NewEncoder(&b))
			return b.Bytes(), err
		}})
	}
	raw("tokens", tokenProbe)
	raw("value", func(e *x.Encoder) error { return e.Encode(pl) })
	raw("doc", func(e *x.Encoder) error { return e.Encode(docs[0]) })
	raw("end without start", func(e *x.Encoder) error {
		if err := e.EncodeToken(x.EndElement{Name: x.Name{Local: "a"}}); err != nil {
			return err
		}
		return e.Flush()
	})
	raw("nothing", func(e *x.Encoder) error { return e.Close() })
	return ps
}

// failing is a sink that works for k bytes and then fails
type failing struct {
	k   int
	got []byte
}

func (f *failing) Write(p []byte) (int, error) {
	n := min(len(p), max(0, f.k-len(f.got)))
	f.got = append(f.got, p[:n]...)
	if n < len(p) {
		return n, sinkErrs["E1"]
	}
	return n, nil
}

func quietly(f func()) {
	defer func() { _ = recover() }()
	f()
}

func poolAct(e *x.Encoder, s *failing, a string) {
	n := func(s, l string) x.Name { return x.Name{Space: s, Local: l} }
	switch a {
	case "indent":
		e.Indent("", "   ")
	case "prefix":
		e.Indent("PRE", " ")
	case "open":
		_ = e.EncodeToken(x.StartElement{Name: n("", "left")})
	case "openns":
		_ = e.EncodeToken(x.StartElement{Name: n("urn:plain", "left"), Attr: []x.Attr{{Name: n("urn:k/a", "z"), Value: "v"}}})
	case "openclash":
		_ = e.EncodeToken(x.StartElement{Name: n("", "c"), Attr: []x.Attr{{Name: n("urn:1/a", "z"), Value: "v"}, {Name: n("urn:2/a", "z"), Value: "v"}, {Name: n("urn:3/a", "z"), Value: "v"}}})
	case "text":
		_ = e.EncodeToken(x.CharData("left text"))
	case "badend":
		_ = e.EncodeToken(x.EndElement{Name: n("", "nosuch")})
	case "badpi":
		_ = e.EncodeToken(x.ProcInst{Target: "a", Inst: []byte("?>")})
	case "comment":
		_ = e.EncodeToken(x.Comment("left"))
	case "encode":
		_ = e.Encode(&plainT{A: "1", B: "2"})
	case "unwritable":
		_ = e.Encode(&mText{Before: "b", Then: panicky{true}})
	case "panics":
		quietly(func() { _ = e.Encode(&mText{Before: "b", Then: panicky{}}) })
	case "midtext":
		quietly(func() { _ = e.Encode(&mText{Text: "t", Then: panicky{true}}) })
		quietly(func() { _ = e.Encode(&mText{Text: "t", Then: panicky{}}) })
		quietly(func() { _ = e.Encode(&mText{Text: "t", Then: panicText{}}) })
	case "flush":
		_ = e.Flush()
	case "close":
		_ = e.Close()
	case "sinkfail":
		s.k = 0
		_ = e.Flush()
	default:
		panic("action " + a)
	}
}

func poolReplay(args []string) error {
	runtime.GOMAXPROCS(1) // the encoder given back is the one taken next
	debug.SetGCPercent(400)
	r := newRng(707)
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	docs := []*m.MPD{randomStructGen(r).mpd(), randomStructGen(r).mpd(), docOfSize(5000, "", true)}
	probes := poolProbes(docs)
	fresh := make([]poolObs, len(probes))
	for i, p := range probes {
		b, err := p.fresh()
		fresh[i] = poolObs{p.name, outcome(b, err)}
	}
	id := 0
	err = readCases(args[0], func(raw []byte) error {
		var c struct {
			Acts []string `json:"acts"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		rounds := scale(2, 4)
		for round := 0; round < rounds; round++ {
			id++
			rec := poolRec{ID: fmt.Sprintf("pool:%d", id), Acts: c.Acts, Obs: []poolObs{}}
			rec.Pan = guard(func() string { return fmt.Sprint(c.Acts) }, func() {
				s := &failing{k: 1 << 30}
				e := x.AcquireEncoder(s)
				for _, a := range c.Acts {
					if a == "release" {
						x.ReleaseEncoder(e)
						s = &failing{k: 1 << 30}
						e = x.AcquireEncoder(s)
						continue
					}
					poolAct(e, s, a)
				}
				x.ReleaseEncoder(e)
				n := len(s.got)
				for j := 0; j < 2; j++ {
					i := (id*2 + j*7) % len(probes)
					b, err := probes[i].run()
					rec.Obs = append(rec.Obs, fresh[i], poolObs{probes[i].name, outcome(b, err)})
					if d := rec.Obs[len(rec.Obs)-1].D; d != fresh[i].D && rec.Out == "" {
						rec.Out = cut(string(b), 1500)
					}
				}
				if len(s.got) != n {
					rec.Changed = "a later write reaches the sink of an earlier one"
				}
			})
			w.put(rec)
		}
		return nil
	})
	if err != nil {
		return err
	}
	return w.close()
}

// ---------------------------------------------------------------- sequences

type poolStep struct {
	key string
	run func() (string, error)
}

// steps are the writes a history is made of; together they leave behind whatever a write can.
func poolSteps(r *rand.Rand, docs []*m.MPD) []poolStep {
	var out []poolStep
	add := func(key string, f func() (string, error)) { out = append(out, poolStep{key, f}) }
	toBuf := func(f func(w io.Writer) error) func() (string, error) {
		return func() (string, error) {
			var b bytes.Buffer
			err := f(&b)
			return b.String(), err
		}
	}
	for i, d := range docs {
		for _, indent := range []string{"", "  ", "\t"} {
			header := r.Intn(2) == 0
			key := fmt.Sprintf("%d %q %v", i, indent, header)
			add("Write "+key, toBuf(func(w io.Writer) error { _, err := d.Write(w, indent, header); return err }))
			add("Write "+key, func() (string, error) { return d.WriteToString(indent, header) })
			k := r.Intn(3000)
			add(fmt.Sprintf("Write %s to a sink that fails after %d", key, k), func() (string, error) {
				f := &failing{k: k}
				_, err := d.Write(f, indent, header)
				return string(f.got), err
			})
			if len(d.Periods) > 0 {
				add("Period "+key, func() (string, error) { return d.Periods[0].WriteToString(indent) })
			}
		}
		add(fmt.Sprintf("Marshal %d", i), func() (string, error) { b, err := x.Marshal(d); return string(b), err })
		add(fmt.Sprintf("Clone %d", i), func() (string, error) { return m.Clone(d).WriteToString(" ", false) })
		text := sync.OnceValue(func() string { s, _ := d.WriteToString("", false); return s }) // not now: nothing has been used yet
		add(fmt.Sprintf("Read %d", i), func() (string, error) {
			g, err := m.ReadFromString(text())
			if err != nil {
				return "", err
			}
			return saysAll(g), nil
		})
		add(fmt.Sprintf("Read broken %d", i), func() (string, error) {
			_, err := m.ReadFromString(text()[:len(text())*2/3])
			return fmt.Sprint(err != nil), nil
		})
	}
	for i, v := range []any{
		&mText{Before: "b", Text: "t", Then: panicky{true}}, &mText{Text: "t", Then: make(chan int)}, &mText{Before: "b", Then: panicky{}},
		&mText{Text: "t", Then: panicText{}}, &mText{Before: "b", Text: "t", After: "a"}, &plainT{A: "1", C: []string{"2"}, D: &plainT{B: "x"}},
		struct{ X func() }{}, &holder{A: "a", U: 7},
	} {
		for _, indent := range []string{"", "  "} {
			add(fmt.Sprintf("WriteXML value %d %q", i, indent), toBuf(func(w io.Writer) (err error) {
				defer func() {
					if r := recover(); r != nil {
						err = fmt.Errorf("panic %v", r)
					}
				}()
				_, err = m.WriteXML(v, w, indent, true)
				return err
			}))
		}
	}
	inner, outer := docs[0], docs[len(docs)-1]
	add("nested", func() (string, error) {
		var b bytes.Buffer
		var in []byte
		_, err := m.WriteXML(&mText{Before: "b", Then: nestedWrite{inner, &in}, After: "a"}, &b, "  ", false)
		return b.String() + "|" + string(in), err
	})
	add("write inside the sink", func() (string, error) {
		var b bytes.Buffer
		ws := &writingSink{d: inner}
		_, err := outer.Write(ws, "  ", true)
		b.Write(ws.got)
		return b.String() + "|" + ws.inner, err
	})
	return out
}

// writingSink writes another document whenever it is given something
type writingSink struct {
	d     *m.MPD
	got   []byte
	inner string
}

func (s *writingSink) Write(p []byte) (int, error) {
	keep := append([]byte(nil), p...)
	in, err := s.d.WriteToString("\t", true)
	if err != nil {
		return 0, err
	}
	s.inner = in
	if !bytes.Equal(keep, p) {
		s.inner = "the chunk changed while it was being written"
	}
	s.got = append(s.got, keep...)
	return len(p), nil
}

func (s *poolStep) obs() poolObs {
	o, err := s.run()
	return poolObs{s.key, outcome([]byte(o), err)}
}

func poolRecord(args []string) error {
	w, err := newRecWriter(args[0])
	if err != nil {
		return err
	}
	r := newRng(708)
	for i := 0; i < scale(150, 1200); i++ {
		var docs []*m.MPD
		var before []string
		for len(docs) < 3 {
			d := randomStructGen(r).mpd()
			docs, before = append(docs, d), append(before, saysAll(d))
		}
		steps := poolSteps(r, docs)
		rec := poolRec{ID: fmt.Sprintf("history:%d", i), Acts: []string{}, Obs: []poolObs{}}
		rec.Pan = guard(func() string { return rec.ID }, func() {
			for j := 0; j < scale(60, 120); j++ {
				s := steps[r.Intn(len(steps))]
				if len(rec.Acts) > 0 && r.Intn(3) == 0 { // once more what was written before
					s = steps[r.Intn(1+r.Intn(len(steps)))]
				}
				rec.Acts = append(rec.Acts, s.key)
				rec.Obs = append(rec.Obs, s.obs())
			}
			// and all of them in the end
			for j := range steps {
				rec.Obs = append(rec.Obs, steps[j].obs())
			}
		})
		for j, d := range docs {
			if saysAll(d) != before[j] {
				rec.Changed = fmt.Sprintf("document %d", j)
			}
		}
		w.put(rec)
	}
	return w.close()
}

// ---------------------------------------------------------------- goroutines

// cold types: their first use happens concurrently
type coldA struct {
	XMLName x.Name  `xml:"urn:a a"`
	N       int     `xml:"n,attr"`
	B       []coldB `xml:"l>b"`
	coldC
}
type coldB struct {
	S string `xml:",chardata"`
	D *coldD `xml:"d"`
}
type coldC struct {
	F float64 `xml:"f"`
	G *coldD  `xml:"g"`
}
type coldD struct {
	V  []string `xml:"v"`
	At string   `xml:"urn:d at,attr"`
}
type coldBad struct {
	A string `xml:"a"`
	B string `xml:"a,attr,chardata"`
}

// poolStress runs goroutines that read and write the same and different documents.
// All processes started with one seed do the same, in another order (VV_RUN).
func poolStress(args []string) error {
	if journal != "" {
		_ = os.WriteFile(journal, []byte("concurrent reads and writes"), 0o644)
	}
	var run int64
	fmt.Sscan(os.Getenv("VV_RUN"), &run)
	r := newRng(709)
	var docs []*m.MPD
	var before []string
	for len(docs) < 4 {
		d := randomStructGen(r).mpd()
		docs, before = append(docs, d), append(before, saysAll(d))
	}
	cold := &coldA{N: 1, B: []coldB{{"x", &coldD{V: []string{"1", "2"}, At: "t"}}, {"y", nil}}, coldC: coldC{1.5, &coldD{At: "u"}}}
	coldText := `<a xmlns="urn:a" n="5"><l><b>x<d xmlns:d="urn:d" d:at="t"><v>1</v></d></b></l><f>2.5</f><g><v>3</v></g></a>`
	const G = 8
	obs := make([][]poolObs, G)
	fails := make([]string, G)
	var start, done sync.WaitGroup
	start.Add(1)
	iters := scale(50, 150)
	for g := 0; g < G; g++ {
		rg := rand.New(rand.NewSource(run*100 + int64(g)))
		own := randomStructGen(newRng(800 + int64(g))).mpd()
		ownKey := fmt.Sprintf("own %d", g)
		shared := poolSteps(newRng(710), docs)
		mine := poolSteps(newRng(711), []*m.MPD{own, own})
		done.Add(1)
		go func() {
			defer done.Done()
			defer func() {
				if e := recover(); e != nil {
					fails[g] = fmt.Sprint(e)
				}
			}()
			start.Wait()
			put := func(k, o string, err error) { obs[g] = append(obs[g], poolObs{k, outcome([]byte(o), err)}) }
			// first of all the types nobody has used yet
			for _, j := range rg.Perm(4) {
				switch j {
				case 0:
					b, err := x.Marshal(cold)
					put("cold marshal", string(b), err)
				case 1:
					var c coldA
					err := x.Unmarshal([]byte(coldText), &c)
					put("cold unmarshal", fmt.Sprint(c.N, len(c.B), c.F, c.G != nil), err)
				case 2:
					b, err := x.Marshal(coldBad{"1", "2"})
					put("cold bad", string(b), err)
				case 3:
					b, err := x.Marshal([]any{coldB{S: "z"}, &coldD{}, cold.coldC})
					put("cold parts", string(b), err)
				}
			}
			for i := 0; i < iters; i++ {
				if rg.Intn(4) == 0 {
					s := mine[rg.Intn(len(mine))]
					o := s.obs()
					o.K = ownKey + " " + o.K
					obs[g] = append(obs[g], o)
					continue
				}
				s := shared[rg.Intn(len(shared))]
				obs[g] = append(obs[g], s.obs())
				if rg.Intn(4) == 0 {
					d := docs[rg.Intn(len(docs))]
					queries(d)
				}
			}
		}()
	}
	start.Done()
	ok := make(chan bool)
	go func() { done.Wait(); close(ok) }()
	select {
	case <-ok:
	case <-time.After(180 * time.Second):
		fmt.Fprintln(os.Stderr, "VV-HANG: concurrent reads and writes do not finish")
		os.Exit(7)
	}
	rec := poolRec{ID: fmt.Sprintf("stress:%d", run), Acts: []string{}, Obs: []poolObs{}}
	for g := range obs {
		rec.Obs = append(rec.Obs, obs[g]...)
		if fails[g] != "" {
			rec.Pan = fails[g]
		}
	}
	for j, d := range docs {
		if saysAll(d) != before[j] {
			rec.Changed = fmt.Sprintf("document %d", j)
		}
	}
	b, err := json.Marshal(rec)
	if err != nil {
		return err
	}
	return os.WriteFile(args[0], append(b, '\n'), 0o644)
}

// queries asks everything there is to ask about a document
func queries(d *m.MPD) {
	for _, p := range d.Periods {
		if p == nil {
			continue
		}
		_, _ = p.GetStart()
		_, _ = p.GetDuration()
		_, _ = p.GetType()
		_, _ = p.GetIndex()
		_ = p.Parent()
		for _, a := range p.AdaptationSets {
			for _, rep := range a.Representations {
				_, _ = rep.GetInit()
				_, _ = rep.GetMedia()
				_ = rep.GetMimeType()
				_ = rep.GetCodecs()
				_ = rep.GetSegmentTemplate()
			}
		}
		for _, s := range p.EventStreams {
			_ = s.IsSCTE35()
			for _, e := range s.Events {
				if e != nil {
					_ = e.SpliceInfo()
				}
			}
		}
	}
}

func init() {
	register("pool-replay", poolReplay)
	register("pool-record", poolRecord)
	register("pool-stress", poolStress)
}
