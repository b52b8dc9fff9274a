package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	m "github.com/Eyevinn/dash-mpd/mpd"
)

// octs is a text as its bytes
type octs []int

func octsOf(s string) octs {
	o := octs{}
	for i := 0; i < len(s); i++ {
		o = append(o, int(s[i]))
	}
	return o
}

func (o octs) text() string {
	b := make([]byte, len(o))
	for i, c := range o {
		b[i] = byte(c)
	}
	return string(b)
}

type lkTmpl struct {
	I octs   `json:"i"`
	M octs   `json:"m"`
	N string `json:"n"`
}

// lkEl: a set or a representation as far as the queries are concerned
type lkEl struct {
	Mime   string   `json:"mime"`
	Codecs string   `json:"codecs"`
	Cps    []string `json:"cps"`
	St     []lkTmpl `json:"st"`
	Id     octs     `json:"id"`
	Bw     octs     `json:"bw"`
}

func (e lkEl) tmpl(r *rand.Rand) *m.SegmentTemplateType {
	if len(e.St) == 0 {
		return nil
	}
	t := &m.SegmentTemplateType{}
	lkDress(t, r)
	t.Initialization, t.Media, t.Index = e.St[0].I.text(), e.St[0].M.text(), e.St[0].N
	return t
}

func (e lkEl) prots(r *rand.Rand) (out []*m.ContentProtectionType) {
	for _, n := range e.Cps {
		c := m.NewContentProtection()
		lkDress(c, r)
		c.Robustness = n
		out = append(out, c)
	}
	return
}

func (e lkEl) bw() uint32 {
	n, err := strconv.ParseUint(e.Bw.text(), 10, 32)
	if err != nil {
		panic(err)
	}
	return uint32(n)
}

// lkDress fills what the queries are not about with anything
func lkDress(v any, r *rand.Rand) {
	if r == nil {
		return
	}
	g := randomStructGen(r)
	g.maxDepth, g.budget = 1+r.Intn(3), 12
	g.fillStruct(reflect.ValueOf(v).Elem(), "", 1)
	switch x := v.(type) {
	case *m.AdaptationSetType:
		x.Representations = nil
	case *m.ContentProtectionType:
		x.Robustness = ""
	}
}

func lkSetSet(a *m.AdaptationSetType, e lkEl, r *rand.Rand) {
	a.MimeType, a.Codecs, a.ContentProtections = e.Mime, e.Codecs, e.prots(r)
	a.SegmentTemplate = lkInto(a.SegmentTemplate, e.tmpl(r), r)
}

func lkSetRep(x *m.RepresentationType, e lkEl, r *rand.Rand) {
	x.MimeType, x.Codecs, x.ContentProtections = e.Mime, e.Codecs, e.prots(r)
	x.SegmentTemplate = lkInto(x.SegmentTemplate, e.tmpl(r), r)
	x.Id, x.Bandwidth = e.Id.text(), e.bw()
}

// lkInto puts the new template in place of the old one, or into it
func lkInto(old, neu *m.SegmentTemplateType, r *rand.Rand) *m.SegmentTemplateType {
	if old != nil && neu != nil && r != nil && r.Intn(2) == 0 {
		old.Initialization, old.Media, old.Index = neu.Initialization, neu.Media, neu.Index
		return old
	}
	return neu
}

func lkTmpls(s *m.SegmentTemplateType) []lkTmpl {
	if s == nil {
		return []lkTmpl{}
	}
	return []lkTmpl{{octsOf(s.Initialization), octsOf(s.Media), s.Index}}
}

type lkAddr struct {
	Text octs   `json:"text"`
	Err  string `json:"err"`
}

func addrOf(s string, err error) lkAddr {
	switch {
	case err == nil:
		return lkAddr{octsOf(s), ""}
	case errors.Is(err, m.ErrParentNotSet):
		return lkAddr{octs{}, "parent"}
	case errors.Is(err, m.ErrSegmentTemplateNotSet):
		return lkAddr{octs{}, "template"}
	}
	return lkAddr{octs{}, "other: " + errStr(err)}
}

type lkAns struct {
	Mime   string   `json:"mime"`
	Codecs string   `json:"codecs"`
	Cps    []string `json:"cps"`
	St     []lkTmpl `json:"st"`
	Init   lkAddr   `json:"init"`
	Media  lkAddr   `json:"media"`
}

type lkOwner struct {
	cps []*m.ContentProtectionType
	st  *m.SegmentTemplateType
}

func lkOwners(x *m.RepresentationType) []lkOwner {
	l := []lkOwner{{x.ContentProtections, x.SegmentTemplate}}
	if a := x.Parent(); a != nil {
		l = append(l, lkOwner{a.ContentProtections, a.SegmentTemplate})
	}
	return l
}

func lkAsk(x *m.RepresentationType) (a lkAns) {
	a.Mime, a.Codecs, a.St = x.GetMimeType(), x.GetCodecs(), lkTmpls(x.GetSegmentTemplate())
	a.Cps = []string{}
	in := lkOwners(x)
	same := func(got any, pick func(lkOwner) []any) string { // must be that of one of them
		for _, o := range in {
			for _, y := range pick(o) {
				if reflect.DeepEqual(got, y) {
					return ""
				}
			}
		}
		return " altered"
	}
	for _, c := range x.GetContentProtections() {
		a.Cps = append(a.Cps, c.Robustness+same(c, func(o lkOwner) (l []any) {
			for _, y := range o.cps {
				l = append(l, y)
			}
			return
		}))
	}
	if len(a.St) == 1 {
		a.St[0].N += same(x.GetSegmentTemplate(), func(o lkOwner) []any { return []any{o.st} })
	}
	a.Init = addrOf(x.GetInit())
	a.Media = addrOf(x.GetMedia())
	return
}

// ---------------------------------------------------------------- replay
func lookupReplay(args []string) error {
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	sum := summary{Summary: true}
	bad := 0
	miss := func(what string, c, got, want any) {
		if bad++; bad <= 50 {
			w.put(mismatch{what, c, got, want})
		}
	}
	err = readCases(args[0], func(raw []byte) error {
		var c struct {
			T   octs `json:"t"`
			Exp []struct {
				Id  octs   `json:"id"`
				Bw  octs   `json:"bw"`
				Out []octs `json:"out"`
			} `json:"exp"`
			Sets []lkEl `json:"sets"`
			Rep  lkEl   `json:"rep"`
			Link int    `json:"link"`
			Want struct {
				lkAns
				Errs  []string `json:"errs"`
				Init  []octs   `json:"init"`
				Media []octs   `json:"media"`
			} `json:"want"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		sum.Cases++
		if len(sum.Samples) < 3 && sum.Cases%997 == 500 {
			sum.Samples = append(sum.Samples, json.RawMessage(append([]byte{}, raw...)))
		}
		in := func(set []octs, x octs) bool {
			for _, y := range set {
				if y.text() == x.text() {
					return true
				}
			}
			return false
		}
		if args[2] == "templates" {
			t := c.T.text()
			for i, e := range c.Exp {
				for j, media := range []bool{false, true} {
					st := &m.SegmentTemplateType{Initialization: t}
					if media {
						st = &m.SegmentTemplateType{Media: t}
					}
					el := lkEl{Id: e.Id, Bw: e.Bw}
					var a lkAddr
					desc := fmt.Sprintf("%q with id %q and bandwidth %s, media %v", t, e.Id.text(), e.Bw.text(), media)
					pan := guard(func() string { return desc }, func() {
						x, set := &m.RepresentationType{}, &m.AdaptationSetType{}
						lkSetRep(x, el, nil)
						if (i+j)%2 == 0 { // its own or its parent's
							x.SegmentTemplate = st
						} else {
							set.SegmentTemplate = st
						}
						set.AppendRepresentation(x)
						if media {
							a = addrOf(x.GetMedia())
						} else {
							a = addrOf(x.GetInit())
						}
					})
					sum.Checks++
					if pan != "" {
						miss("panic: "+pan, desc, "", "")
					} else if a.Err != "" || !in(e.Out, a.Text) {
						miss("another address", desc, a.Err+" "+strconv.Quote(a.Text.text()), e.Out)
					}
				}
			}
			return nil
		}
		// the same situation, come about in several ways
		r := newRng(int64(sum.Cases))
		for way := 0; way < 4; way++ {
			dress := r
			if (sum.Cases+way)%3 == 0 {
				dress = nil
			}
			if way > 0 && c.Link == 0 {
				break
			}
			var a lkAns
			pan := guard(func() string { return string(raw) }, func() {
				x := &m.RepresentationType{}
				lkDress(x, dress)
				lkSetRep(x, c.Rep, dress)
				p := m.NewPeriod()
				p.SegmentTemplate = &m.SegmentTemplateType{Media: "period", Initialization: "period"} // is not asked
				for _, e := range c.Sets {
					s := m.NewAdaptationSet()
					lkDress(s, dress)
					lkSetSet(s, e, dress)
					p.AppendAdaptationSet(s)
				}
				switch way {
				case 0:
					if c.Link > 0 {
						x.SetParent(p.AdaptationSets[c.Link-1])
					}
				default:
					p.AdaptationSets[c.Link-1].AppendRepresentation(x)
				}
				switch way {
				case 2:
					d := m.NewMPD("static")
					d.AppendPeriod(p)
					s, err := d.WriteToString("", false)
					if err != nil {
						panic(err)
					}
					if d, err = m.ReadFromString(s); err != nil {
						panic(err)
					}
					x = d.Periods[0].AdaptationSets[c.Link-1].Representations[0]
				case 3:
					q := p.Clone()
					lkSetSet(p.AdaptationSets[c.Link-1], lkEl{Mime: "other"}, nil)
					lkSetRep(x, lkEl{Mime: "other", Bw: octsOf("1")}, nil)
					x = q.AdaptationSets[c.Link-1].Representations[0]
				}
				a = lkAsk(x)
			})
			sum.Checks += 6
			what := ""
			okErr := func(got lkAddr, want []octs) bool {
				if len(c.Want.Errs) == 0 {
					return got.Err == "" && in(want, got.Text)
				}
				for _, e := range c.Want.Errs {
					if e == got.Err {
						return true
					}
				}
				return false
			}
			switch {
			case pan != "":
				what = "panic: " + pan
			case a.Mime != c.Want.Mime:
				what = "mime type"
			case a.Codecs != c.Want.Codecs:
				what = "codecs"
			case !reflect.DeepEqual(a.Cps, c.Want.Cps):
				what = "content protections"
			case !reflect.DeepEqual(a.St, c.Want.St):
				what = "segment template"
			case !okErr(a.Init, c.Want.Init):
				what = "initialization address"
			case !okErr(a.Media, c.Want.Media):
				what = "media address"
			}
			if what != "" {
				miss(fmt.Sprintf("%s (way %d)", what, way), json.RawMessage(append([]byte{}, raw...)), a, c.Want)
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	w.put(sum)
	return w.close()
}

// ---------------------------------------------------------------- record
type lkOp struct {
	Op string `json:"op"`
	X  int    `json:"x"`
	Y  int    `json:"y"`
	V  lkEl   `json:"v"`
}

type lkStep struct {
	O    lkOp    `json:"o"`
	Reps []lkAns `json:"reps"`
	Err  string  `json:"err"`
	Pan  string  `json:"pan"`
}

type lkSess struct {
	sets []*m.AdaptationSetType
	reps []*m.RepresentationType
	put  map[*m.RepresentationType]bool
}

func (s *lkSess) adopt(as []*m.AdaptationSetType) {
	for _, a := range as {
		s.sets = append(s.sets, a)
		for _, x := range a.Representations {
			s.reps = append(s.reps, x)
			s.put[x] = true
		}
	}
}

func (s *lkSess) doc(r *rand.Rand) *m.MPD {
	d := m.NewMPD("static")
	p := m.NewPeriod()
	p.SegmentTemplate = &m.SegmentTemplateType{Media: "period"}
	p.AdaptationSets = s.sets
	d.Periods = append(d.Periods, p)
	return d
}

func (s *lkSess) do(o lkOp, r *rand.Rand) string {
	switch o.Op {
	case "newset":
		a := &m.AdaptationSetType{}
		if r.Intn(2) == 0 {
			lkDress(a, r)
		}
		lkSetSet(a, o.V, r)
		s.sets = append(s.sets, a)
	case "newrep":
		x := &m.RepresentationType{}
		if r.Intn(2) == 0 {
			x = m.NewRepresentationWithID(o.V.Id.text(), "", "", int(o.V.bw()))
		}
		if r.Intn(2) == 0 {
			lkDress(x, r)
		}
		lkSetRep(x, o.V, r)
		s.reps = append(s.reps, x)
	case "setset":
		lkSetSet(s.sets[o.X-1], o.V, r)
	case "setrep":
		lkSetRep(s.reps[o.X-1], o.V, r)
	case "link":
		if o.Y == 0 {
			s.reps[o.X-1].SetParent(nil)
		} else {
			s.reps[o.X-1].SetParent(s.sets[o.Y-1])
		}
	case "put":
		s.sets[o.Y-1].AppendRepresentation(s.reps[o.X-1])
		s.put[s.reps[o.X-1]] = true
	case "clone":
		s.adopt([]*m.AdaptationSetType{s.sets[o.X-1].Clone()})
	case "setparents":
		s.doc(r).SetParents()
	case "clonedoc":
		d := s.doc(r)
		if r.Intn(2) == 0 {
			s.adopt(m.Clone(d).Periods[0].AdaptationSets)
		} else {
			s.adopt(d.Periods[0].Clone().AdaptationSets)
		}
	case "reread":
		t, err := s.doc(r).WriteToString([]string{"", "  "}[r.Intn(2)], false)
		if err != nil {
			return "write: " + err.Error()
		}
		d, err := m.ReadFromString(t)
		if err != nil {
			return "read: " + err.Error()
		}
		s.adopt(d.Periods[0].AdaptationSets)
	}
	return ""
}

func lookupRecord(args []string) error {
	w, err := newRecWriter(args[0])
	if err != nil {
		return err
	}
	r := newRng(1601)
	frag := []string{"$RepresentationID$", "$RepresentationID$", "$Bandwidth$", "$Bandwidth$", "$", "$$", "/", "seg-", "$Number$", "$Time$", "$Number%05d$", "RepresentationID$", "$Bandwidth", "$Bandwidth%06d$", "é", "&<>'\"", "\\1", "%s", "${1}", "x"}
	tmpl := func() octs {
		var b strings.Builder
		for i := r.Intn(7); i > 0; i-- {
			b.WriteString(frag[r.Intn(len(frag))])
		}
		return octsOf(b.String())
	}
	nth := 0
	opt := func(p string) string {
		if r.Intn(2) == 0 {
			return ""
		}
		nth++
		return p + strconv.Itoa(nth)
	}
	el := func(kind string) lkEl {
		e := lkEl{Mime: opt("video/m"), Codecs: opt("avc"), Cps: []string{}, St: []lkTmpl{}, Id: octs{}, Bw: octs{}}
		for i := r.Intn(6) - 3; i > 0; i-- {
			nth++
			e.Cps = append(e.Cps, "p"+strconv.Itoa(nth))
		}
		if r.Intn(2) == 0 {
			nth++
			e.St = append(e.St, lkTmpl{tmpl(), tmpl(), "t" + strconv.Itoa(nth)})
		}
		if kind == "rep" {
			ids := []string{"", "v1", "V300", "$Bandwidth$", "$RepresentationID$", "$", "a$b", "é", "\\1", "$1", "%d", "RepresentationID", strings.Repeat("long", 50)}
			e.Id = octsOf(ids[r.Intn(len(ids))])
			n := []uint64{0, 1, 300000, uint64(r.Uint32()), 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(7)]
			e.Bw = octsOf(strconv.FormatUint(n, 10))
		}
		return e
	}
	for i := 0; i < scale(2500, 7000); i++ {
		s := &lkSess{put: map[*m.RepresentationType]bool{}}
		var steps []lkStep
		n := 3 + r.Intn(scale(10, 20))
		for len(steps) < n {
			op := []string{"newset", "newrep", "newrep", "setset", "setset", "setrep", "setrep", "link", "put", "put", "put", "clone", "reread", "clonedoc", "setparents"}[r.Intn(15)]
			o := lkOp{Op: op, V: el("set")}
			ok := true
			anySet := func() int {
				if len(s.sets) == 0 {
					ok = false
					return 0
				}
				return 1 + r.Intn(len(s.sets))
			}
			anyRep := func() int {
				if len(s.reps) == 0 {
					ok = false
					return 0
				}
				return 1 + r.Intn(len(s.reps))
			}
			switch op {
			case "newrep":
				o.V = el("rep")
			case "setset", "clone":
				o.X = anySet()
			case "setrep":
				o.X, o.V = anyRep(), el("rep")
			case "link":
				if o.X = anyRep(); r.Intn(3) > 0 {
					o.Y = anySet()
				}
			case "put":
				o.X, o.Y = anyRep(), anySet()
				ok = ok && !s.put[s.reps[o.X-1]]
			case "reread", "clonedoc":
				ok = len(s.sets) > 0
			}
			if op == "clone" || op == "reread" || op == "clonedoc" {
				ok = ok && len(s.reps) < 12
			}
			if !ok {
				continue
			}
			st := lkStep{O: o, Reps: []lkAns{}}
			st.Pan = guard(func() string { b, _ := json.Marshal(append(steps, st)); return string(b) }, func() {
				if st.Err = s.do(o, r); st.Err != "" {
					return
				}
				before, after := "", ""
				if len(steps) == n-1 {
					before, _ = s.doc(r).WriteToString("", false)
				}
				for _, x := range s.reps {
					st.Reps = append(st.Reps, lkAsk(x))
				}
				if len(steps) == n-1 {
					if after, _ = s.doc(r).WriteToString("", false); before != after {
						st.Err = "asking changes the document"
					}
				}
			})
			steps = append(steps, st)
			if st.Pan != "" || st.Err != "" {
				break
			}
		}
		w.put(map[string]any{"id": fmt.Sprintf("session:%d", i), "steps": steps})
	}
	return w.close()
}

func init() {
	register("lookup-replay", lookupReplay)
	register("lookup-record", lookupRecord)
}
