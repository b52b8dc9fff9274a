package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	m "github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register("periods-replay", periodsReplay)
	register("periods-record", periodsRecord)
}

type ans struct {
	E string `json:"e"`
	V int64  `json:"v"`
}
type sans struct {
	E string `json:"e"`
	V string `json:"v"`
}

// answers are the abstract answers of one period.
type answers struct {
	P     int    `json:"p"`
	Idx   ans    `json:"idx"`
	Start ans    `json:"start"`
	Dur   ans    `json:"dur"`
	Type  sans   `json:"type"`
	Abs   ans    `json:"abs"`
	Panic string `json:"panic"`
}

func errCode(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, m.ErrParentNotSet):
		return "parent"
	case errors.Is(err, m.ErrPeriodNotFound):
		return "notfound"
	case errors.Is(err, m.ErrUnknownPeriodStart):
		return "unkstart"
	case errors.Is(err, m.ErrUnknownPeriodDur):
		return "unkdur"
	case errors.Is(err, m.ErrNoMediaPresentationDuration):
		return "nompd"
	case errors.Is(err, m.ErrASTRequired):
		return "ast"
	}
	return "other: " + err.Error()
}

const badUnits = -777777 // observed value is no multiple of the session's unit

// unscale maps a real duration to model units.
func unscale(d int64, unit int64) int64 {
	if d%unit != 0 {
		return badUnits
	}
	return d / unit
}

func ptName(t m.PeriodType) string {
	switch t {
	case m.PTBad:
		return "bad"
	case m.PTRegular:
		return "regular"
	case m.PTEarlyAvailable:
		return "early-available"
	case m.PTEarlyTerminated:
		return "early-terminated"
	case m.PTRegularOrEarlyTerminated:
		return "regular-or-early-terminated"
	}
	return fmt.Sprint("?", int(t))
}

type astVal struct {
	s    string
	secs float64
	kind string
}

var astVals = []astVal{
	{"1970-01-01T00:00:00Z", 0, "ok"},
	{"2024-02-29T12:00:00Z", 1709208000, "ok"},
	{"2024-02-29T13:30:00.250+01:30", 1709208000.25, "ok"},
	{"1969-12-31T23:59:59.500Z", -0.5, "ok"},
	{"2001-09-09T01:46:40Z", 1000000000, "ok"},
}

func ask(doc *m.MPD, p *m.Period, id int, unit int64, ast astVal) (a answers) {
	a.P = id
	pan := guard(func() string { return fmt.Sprintf("period queries on %+v", doc) }, func() {
		i, err := p.GetIndex()
		if err != nil {
			a.Idx = ans{E: errCode(err)}
		} else {
			a.Idx = ans{V: int64(i)}
		}
		s, err := p.GetStart()
		if err != nil {
			a.Start = ans{E: errCode(err)}
		} else {
			a.Start = ans{V: unscale(int64(s), unit)}
		}
		d, err := p.GetDuration()
		if err != nil {
			a.Dur = ans{E: errCode(err)}
		} else {
			a.Dur = ans{V: unscale(int64(d), unit)}
		}
		t, err := p.GetType()
		a.Type = sans{E: errCode(err), V: ptName(t)}
		if n := t.String(); t != m.PTBad && t != m.PTRegularOrEarlyTerminated && n != a.Type.V {
			a.Type.V += " called " + n
		}
		f, err := p.AbsoluteStart(doc)
		if err != nil {
			c := errCode(err)
			if ast.kind == "bad" && strings.HasPrefix(c, "other: ") {
				c = "badast"
			}
			a.Abs = ans{E: c}
		} else {
			units := (f - ast.secs) * 1e9 / float64(unit)
			r := math.Round(units)
			// float64 seconds near 1.7e9 resolve about 0.25 us
			if math.Abs(units-r)*float64(unit) > math.Abs(f)*1e-6+0.01 {
				r = badUnits
			}
			a.Abs = ans{V: int64(r)}
		}
	})
	a.Panic = pan
	return a
}

type mper struct {
	Start int64  `json:"start"`
	Dur   int64  `json:"dur"`
	Par   string `json:"par"`
}

type periodCase struct {
	M struct {
		Type string `json:"type"`
		Mup  bool   `json:"mup"`
		Mdur int64  `json:"mdur"`
		Ast  string `json:"ast"`
		List []int  `json:"list"`
		Per  []mper `json:"per"`
	} `json:"m"`
	Want []json.RawMessage `json:"want"`
}

func dur(v, unit int64) *m.Duration {
	if v < 0 {
		return nil
	}
	d := m.Duration(v * unit)
	return &d
}

func setType(doc *m.MPD, t string) {
	switch t {
	case "absent":
		doc.Type = nil
	default:
		s := t
		doc.Type = &s
	}
}

var units = []int64{1, 1000, 1_000_000, 1_000_000_000, 3_723_456_000_000, 86_400_000_000_000, 7_777_777_777_777_777 / 10, 40_000_000, 5_000_000_001}

func pickAst(kind string, unit int64, r *rand.Rand) astVal {
	switch kind {
	case "ok":
		if unit < 1_000_000 {
			return astVals[0] // a float64 resolves such units only near the epoch
		}
		return astVals[r.Intn(len(astVals))]
	case "bad":
		bad := []string{"yesterday", "2024-02-30T00:00:00Z", "2024-01-01T00:00:00", "T"}
		return astVal{bad[r.Intn(len(bad))], 0, "bad"}
	}
	return astVal{"", 0, "none"}
}

// periodsReplay builds every document state TLC exported and compares the
// real answers with the ones the specification demands.
func periodsReplay(args []string) error {
	in, out, what := args[0], args[1], args[2]
	w, err := newRecWriter(out)
	if err != nil {
		return err
	}
	r := newRng(1)
	var sum summary
	sum.Summary = true
	bad := 0
	err = readCases(in, func(raw []byte) error {
		var c periodCase
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		sum.Cases++
		unit := units[r.Intn(len(units))]
		doc := m.NewMPD("static")
		other := m.NewMPD("dynamic")
		setType(doc, c.M.Type)
		if c.M.Mup {
			doc.MinimumUpdatePeriod = m.Seconds2DurPtr(r.Intn(3))
		}
		doc.MediaPresentationDuration = dur(c.M.Mdur, unit)
		ast := pickAst(c.M.Ast, unit, r)
		doc.AvailabilityStartTime = m.DateTime(ast.s)
		ps := make([]*m.Period, len(c.M.Per))
		for i, p := range c.M.Per {
			if p.Par == "absent" {
				continue
			}
			ps[i] = m.NewPeriod()
			if sum.Cases%7 == 0 {
				decorate(r, doc, ps[i])
			}
			ps[i].Start = dur(p.Start, unit)
			ps[i].Duration = dur(p.Dur, unit)
			switch p.Par {
			case "m":
				ps[i].SetParent(doc)
			case "o":
				ps[i].SetParent(other)
			}
		}
		for _, id := range c.M.List {
			doc.Periods = append(doc.Periods, ps[id-1])
		}
		for i, p := range ps {
			if p == nil {
				continue
			}
			if strings.Contains(string(c.Want[i]), `"none"`) {
				continue
			}
			got := ask(doc, p, i+1, unit, ast)
			var want answers
			if err := json.Unmarshal(c.Want[i], &want); err != nil {
				return err
			}
			sum.Checks++
			want.P = i + 1
			ok := got.Panic == ""
			switch what {
			case "start":
				ok = ok && got.Idx == want.Idx && got.Start == want.Start && got.Abs == want.Abs
			case "dur":
				ok = ok && got.Dur == want.Dur
			case "type":
				ok = ok && got.Type == want.Type
			}
			if !ok {
				bad++
				if bad < 50 {
					w.put(mismatch{What: fmt.Sprintf("period %d of a document answers differently from the specification (unit %dns)", i+1, unit), Case: json.RawMessage(append([]byte{}, raw...)), Got: got, Want: want})
				}
			}
			if len(sum.Samples) < 2 && sum.Cases%97 == 5 {
				sum.Samples = append(sum.Samples, map[string]any{"case": json.RawMessage(append([]byte{}, raw...)), "got": got})
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	w.put(sum)
	return w.close()
}

type pEvent struct {
	Op  string    `json:"op"`
	P   int       `json:"p"`
	V   int64     `json:"v"`
	W   int64     `json:"w"`
	S   string    `json:"s"`
	Obs []answers `json:"obs"`
}

type pSession struct {
	Unit int64    `json:"-"`
	U    string   `json:"unit"`
	Ev   []pEvent `json:"ev"`
}

// periodsRecord runs random editing sessions on real MPDs.
func periodsRecord(args []string) error {
	w, err := newRecWriter(args[0])
	if err != nil {
		return err
	}
	n := scale(1500, 12000)
	r := newRng(2)
	for s := 0; s < n; s++ {
		w.put(periodSession(r, s))
	}
	return w.close()
}

func periodSession(r *rand.Rand, s int) pSession {
	unit := units[r.Intn(len(units))]
	reread := r.Intn(3) == 0
	if reread {
		unit = []int64{1_000_000, 1_000_000_000, 3_723_456_000_000, 40_000_000}[r.Intn(4)]
	}
	maxV := int64(12)
	if r.Intn(8) == 0 {
		maxV = 400
	}
	for maxV > 1 && unit*maxV*24 > math.MaxInt64/4 {
		maxV /= 2
	}
	ses := pSession{Unit: unit, U: time.Duration(unit).String()}
	doc := &m.MPD{Profiles: "x"}
	other := m.NewMPD("dynamic")
	ast := astVal{"", 0, "none"}
	type live struct {
		id int
		p  *m.Period
	}
	var ps []live
	next := 1
	inList := func(p *m.Period) bool {
		for _, q := range doc.Periods {
			if q == p {
				return true
			}
		}
		return false
	}
	val := func() int64 {
		if r.Intn(3) == 0 {
			return -1
		}
		if r.Intn(5) == 0 {
			return 0
		}
		return r.Int63n(maxV)
	}
	nEv := 4 + r.Intn(22)
	maxPer := 2 + r.Intn(6)
	if s%40 == 0 {
		maxPer = 18
		nEv = 70
	}
	for k := 0; k < nEv; k++ {
		var e pEvent
		pick := r.Intn(16)
		if len(ps) == 0 {
			if next > maxPer {
				break
			}
			pick = 0
		}
		switch {
		case pick <= 3 && next <= maxPer:
			e = pEvent{Op: "new", P: next}
			p := m.NewPeriod()
			decorate(r, doc, p)
			ps = append(ps, live{next, p})
			next++
			ses.Ev = append(ses.Ev, withObs(e, doc, unit, ast, nil))
			// usually placed right away
			l := ps[len(ps)-1]
			if r.Intn(6) == 0 {
				e = pEvent{Op: "rawappend", P: l.id}
				doc.Periods = append(doc.Periods, l.p)
			} else {
				e = pEvent{Op: "append", P: l.id}
				doc.AppendPeriod(l.p)
			}
		case pick <= 6:
			l := ps[r.Intn(len(ps))]
			v := val()
			e = pEvent{Op: "setstart", P: l.id, V: v}
			l.p.Start = dur(v, unit)
		case pick <= 9:
			l := ps[r.Intn(len(ps))]
			v := val()
			e = pEvent{Op: "setdur", P: l.id, V: v}
			l.p.Duration = dur(v, unit)
		case pick == 10:
			switch r.Intn(3) {
			case 0:
				t := []string{"static", "dynamic", "absent"}[r.Intn(3)]
				e = pEvent{Op: "settype", S: t}
				setType(doc, t)
			case 1:
				v := int64(r.Intn(2))
				e = pEvent{Op: "setmup", V: v}
				doc.MinimumUpdatePeriod = nil
				if v == 1 {
					doc.MinimumUpdatePeriod = m.Seconds2DurPtr(r.Intn(3))
				}
			case 2:
				v := val()
				if v > 0 {
					v *= 6
				}
				e = pEvent{Op: "setmdur", V: v}
				doc.MediaPresentationDuration = dur(v, unit)
			}
		case pick == 11:
			k := []string{"none", "ok", "ok", "ok", "bad"}[r.Intn(5)]
			e = pEvent{Op: "setast", S: k}
			ast = pickAst(k, unit, r)
			doc.AvailabilityStartTime = m.DateTime(ast.s)
		case pick == 12 && len(doc.Periods) > 0:
			i := r.Intn(len(doc.Periods))
			e = pEvent{Op: "remove", V: int64(i + 1)}
			doc.Periods = append(append([]*m.Period{}, doc.Periods[:i]...), doc.Periods[i+1:]...)
		case pick == 13 && len(doc.Periods) > 1:
			i := r.Intn(len(doc.Periods))
			j := r.Intn(len(doc.Periods))
			if i == j {
				j = (i + 1) % len(doc.Periods)
			}
			e = pEvent{Op: "swap", V: int64(i + 1), W: int64(j + 1)}
			doc.Periods[i], doc.Periods[j] = doc.Periods[j], doc.Periods[i]
		case pick == 14:
			l := ps[r.Intn(len(ps))]
			switch r.Intn(5) {
			case 0:
				e = pEvent{Op: "tomother", P: l.id}
				l.p.SetParent(other)
			case 1:
				e = pEvent{Op: "unparent", P: l.id}
				l.p.SetParent(nil)
			case 2:
				e = pEvent{Op: "append", P: l.id}
				if inList(l.p) {
					e = pEvent{Op: "setparents"}
					doc.SetParents()
				} else {
					doc.AppendPeriod(l.p)
				}
			default:
				e = pEvent{Op: "setparents"}
				doc.SetParents()
			}
		default:
			ids := make([]int, len(doc.Periods))
			for i, q := range doc.Periods {
				for _, l := range ps {
					if l.p == q {
						ids[i] = l.id
					}
				}
			}
			var nd *m.MPD
			e = pEvent{Op: "clone"}
			desc := func() string { return "clone/reread of a period session" }
			if reread && ast.kind != "bad" {
				e.Op = "reread"
				pan := guard(desc, func() {
					s, err := doc.WriteToString([]string{"", "  "}[r.Intn(2)], r.Intn(2) == 0)
					if err == nil {
						nd, err = m.ReadFromString(s)
					}
					if err != nil {
						panic(err)
					}
				})
				if pan != "" {
					nd = nil
				}
			} else {
				guard(desc, func() { nd = m.Clone(doc) })
			}
			if nd == nil || len(nd.Periods) != len(ids) {
				e.Obs = []answers{{Panic: e.Op + " lost periods"}}
				ses.Ev = append(ses.Ev, e)
				return ses
			}
			doc = nd
			ps = ps[:0]
			for i, q := range doc.Periods {
				ps = append(ps, live{ids[i], q})
			}
		}
		if e.Op == "" {
			continue
		}
		pm := map[int]*m.Period{}
		for _, l := range ps {
			pm[l.id] = l.p
		}
		ses.Ev = append(ses.Ev, withObs(e, doc, unit, ast, pm))
	}
	return ses
}

func withObs(e pEvent, doc *m.MPD, unit int64, ast astVal, ps map[int]*m.Period) pEvent {
	e.Obs = []answers{}
	ids := []int{}
	for id := range ps {
		ids = append(ids, id)
	}
	sortInts(ids)
	for _, id := range ids {
		e.Obs = append(e.Obs, ask(doc, ps[id], id, unit, ast))
	}
	return e
}

func sortInts(a []int) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// decorate fills in what has no bearing on the answers: other attributes and
// elements of the Periods and of the MPD; ids may repeat.
func decorate(r *rand.Rand, doc *m.MPD, ps ...*m.Period) {
	g := &structGen{r: r, pField: []float64{0.05, 0.3}[r.Intn(2)], maxDepth: 1, budget: 20,
		str: func() string { return []string{"p", "q", "1", "P1", "onRequest", "dynamic"}[r.Intn(6)] }}
	keepM := *doc
	if r.Intn(4) == 0 {
		g.fillStruct(reflect.ValueOf(doc).Elem(), "MPD", 0)
		doc.Type, doc.Periods, doc.MediaPresentationDuration, doc.MinimumUpdatePeriod, doc.AvailabilityStartTime =
			keepM.Type, keepM.Periods, keepM.MediaPresentationDuration, keepM.MinimumUpdatePeriod, keepM.AvailabilityStartTime
	}
	for _, p := range ps {
		if r.Intn(3) != 0 {
			continue
		}
		s, d := p.Start, p.Duration
		g.budget = 20
		g.fillStruct(reflect.ValueOf(p).Elem(), "Period", 0)
		p.Start, p.Duration = s, d
		if r.Intn(2) == 0 {
			p.Id = "p"
		}
	}
}
