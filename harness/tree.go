package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"time"

	m "github.com/Eyevinn/dash-mpd/mpd"
)

// ---------------------------------------------------------------- the tree
type treeOp struct {
	Op string `json:"op"`
	X  int    `json:"x"`
	Y  int    `json:"y"`
	J  int    `json:"j"`
	E  bool   `json:"e"`
	K  string `json:"k"`
}

// treeSess numbers the objects of an editing session and looks at them
type treeSess struct {
	objs []any // *m.MPD, *m.Period, ...
	num  map[any]int
	err  string
	deco *structGen // fills new objects with other content, when set
}

func newTreeSess() *treeSess { return &treeSess{num: map[any]int{}} }

func (t *treeSess) add(o any) int {
	t.objs = append(t.objs, o)
	t.num[o] = len(t.objs)
	return len(t.objs)
}

func (t *treeSess) kind(i int) string {
	switch t.objs[i-1].(type) {
	case *m.MPD:
		return "M"
	case *m.Period:
		return "P"
	case *m.AdaptationSetType:
		return "A"
	case *m.RepresentationType:
		return "R"
	}
	return "S"
}

func kidsOf(o any) (kids, ekids []any) {
	kids, ekids = []any{}, []any{}
	switch x := o.(type) {
	case *m.MPD:
		for _, y := range x.Periods {
			kids = append(kids, y)
		}
	case *m.Period:
		for _, y := range x.AdaptationSets {
			kids = append(kids, y)
		}
		for _, y := range x.EmptyAdaptationSets {
			ekids = append(ekids, y)
		}
	case *m.AdaptationSetType:
		for _, y := range x.Representations {
			kids = append(kids, y)
		}
	case *m.RepresentationType:
		for _, y := range x.SubRepresentations {
			kids = append(kids, y)
		}
	}
	return
}

// parentOf: the parent link, nil when there is none
func parentOf(o any) any {
	switch x := o.(type) {
	case *m.Period:
		if p := x.Parent(); p != nil {
			return p
		}
	case *m.AdaptationSetType:
		if p := x.Parent(); p != nil {
			return p
		}
	case *m.RepresentationType:
		if p := x.Parent(); p != nil {
			return p
		}
	case *m.SubRepresentationType:
		if p := x.Parent(); p != nil {
			return p
		}
	}
	return nil
}

func setIn[T any](s []T, j int, x T) []T { // always in place when there is room, as slices are
	s = append(s, x)
	copy(s[j+1:], s[j:])
	s[j] = x
	return s
}

func dropIn[T any](s []T, j int) []T { return append(s[:j], s[j+1:]...) }

func valOf(o any) int {
	switch x := o.(type) {
	case *m.MPD:
		if x.MinimumUpdatePeriod != nil {
			return int(time.Duration(*x.MinimumUpdatePeriod) / time.Second)
		}
	case *m.Period:
		if x.Start != nil {
			return int(time.Duration(*x.Start) / time.Second)
		}
	case *m.AdaptationSetType:
		if x.Id != nil {
			return int(*x.Id)
		}
	case *m.RepresentationType:
		if x.QualityRanking != nil {
			return int(*x.QualityRanking)
		}
	case *m.SubRepresentationType:
		if x.Level != nil {
			return int(*x.Level)
		}
	}
	return 0
}

// setVal changes the value behind the pointer, where there is one
func setVal(o any, n int) {
	u := uint32(n)
	d := m.Duration(time.Duration(n) * time.Second)
	setU := func(p **uint32) {
		if *p == nil {
			*p = &u
		} else {
			**p = u
		}
	}
	setD := func(p **m.Duration) {
		if *p == nil {
			*p = &d
		} else {
			**p = d
		}
	}
	switch x := o.(type) {
	case *m.MPD:
		setD(&x.MinimumUpdatePeriod)
	case *m.Period:
		setD(&x.Start)
	case *m.AdaptationSetType:
		setU(&x.Id)
	case *m.RepresentationType:
		setU(&x.QualityRanking)
	case *m.SubRepresentationType:
		setU(&x.Level)
	}
}

// adopt numbers the objects of a new tree in preorder; none may be an old one
func (t *treeSess) adopt(o any) {
	if t.num[o] != 0 {
		t.err = fmt.Sprintf("object %d is part of a new tree", t.num[o])
		return
	}
	t.add(o)
	k, e := kidsOf(o)
	for _, y := range append(k, e...) {
		t.adopt(y)
	}
}

func (t *treeSess) decorate(v any) {
	if t.deco == nil {
		return
	}
	t.deco.n = 0
	e := reflect.ValueOf(v).Elem()
	t.deco.fillStruct(e, "", 0)
	// the tree itself is built by the session
	switch x := v.(type) {
	case *m.MPD:
		x.Periods, x.MinimumUpdatePeriod = nil, nil
	case *m.Period:
		x.AdaptationSets, x.EmptyAdaptationSets, x.Start = nil, nil, nil
	case *m.AdaptationSetType:
		x.Representations, x.Id = nil, nil
	case *m.RepresentationType:
		x.SubRepresentations, x.QualityRanking = nil, nil
	case *m.SubRepresentationType:
		x.Level = nil
	}
}

func (t *treeSess) do(o treeOp) {
	var x, y any
	if o.X > 0 {
		x = t.objs[o.X-1]
	}
	if o.Y > 0 {
		y = t.objs[o.Y-1]
	}
	switch o.Op {
	case "new":
		var v any
		switch o.K {
		case "M":
			v = m.NewMPD(m.STATIC_TYPE)
		case "P":
			v = m.NewPeriod()
		case "A":
			v = m.NewAdaptationSet()
		case "R":
			v = m.NewRepresentation()
		default:
			v = m.NewSubRepresentation()
		}
		t.decorate(v)
		t.add(v)
	case "append":
		switch p := x.(type) {
		case *m.MPD:
			p.AppendPeriod(y.(*m.Period))
		case *m.Period:
			p.AppendAdaptationSet(y.(*m.AdaptationSetType))
		case *m.AdaptationSetType:
			p.AppendRepresentation(y.(*m.RepresentationType))
		case *m.RepresentationType:
			p.AppendSubRepresentation(y.(*m.SubRepresentationType))
		}
	case "insert":
		switch p := x.(type) {
		case *m.MPD:
			p.Periods = setIn(p.Periods, o.J, y.(*m.Period))
		case *m.Period:
			if o.E {
				p.EmptyAdaptationSets = setIn(p.EmptyAdaptationSets, o.J, y.(*m.AdaptationSetType))
			} else {
				p.AdaptationSets = setIn(p.AdaptationSets, o.J, y.(*m.AdaptationSetType))
			}
		case *m.AdaptationSetType:
			p.Representations = setIn(p.Representations, o.J, y.(*m.RepresentationType))
		case *m.RepresentationType:
			p.SubRepresentations = setIn(p.SubRepresentations, o.J, y.(*m.SubRepresentationType))
		}
	case "drop":
		switch p := x.(type) {
		case *m.MPD:
			p.Periods = dropIn(p.Periods, o.J-1)
		case *m.Period:
			if o.E {
				p.EmptyAdaptationSets = dropIn(p.EmptyAdaptationSets, o.J-1)
			} else {
				p.AdaptationSets = dropIn(p.AdaptationSets, o.J-1)
			}
		case *m.AdaptationSetType:
			p.Representations = dropIn(p.Representations, o.J-1)
		case *m.RepresentationType:
			p.SubRepresentations = dropIn(p.SubRepresentations, o.J-1)
		}
	case "link":
		switch c := x.(type) {
		case *m.Period:
			p, _ := y.(*m.MPD)
			c.SetParent(p)
		case *m.AdaptationSetType:
			p, _ := y.(*m.Period)
			c.SetParent(p)
		case *m.RepresentationType:
			p, _ := y.(*m.AdaptationSetType)
			c.SetParent(p)
		case *m.SubRepresentationType:
			p, _ := y.(*m.RepresentationType)
			c.SetParent(p)
		}
	case "val":
		setVal(x, o.J)
	case "setall":
		switch p := x.(type) {
		case *m.MPD:
			p.SetParents()
		case *m.Period:
			p.SetParents()
		case *m.AdaptationSetType:
			p.SetParents()
		case *m.RepresentationType:
			p.SetParents()
		}
	case "clone":
		switch p := x.(type) {
		case *m.MPD:
			t.adopt(m.Clone(p))
		case *m.Period:
			t.adopt(p.Clone())
		case *m.AdaptationSetType:
			t.adopt(p.Clone())
		}
	case "reread":
		s, err := x.(*m.MPD).WriteToString("", false)
		if err != nil {
			t.err = "write: " + err.Error()
			return
		}
		d, err := m.ReadFromString(s)
		if err != nil {
			t.err = "read: " + err.Error()
			return
		}
		t.adopt(d)
	}
}

type treeObs struct {
	Kids  [][]int `json:"kids"`
	EKids [][]int `json:"ekids"`
	Link  []int   `json:"link"`
	Val   []int   `json:"val"`
}

func (t *treeSess) look() (o treeObs) {
	id := func(y any) int {
		if n := t.num[y]; n > 0 {
			return n
		}
		return -1 // an object nobody has seen
	}
	ids := func(s []any) []int {
		out := []int{}
		for _, y := range s {
			out = append(out, id(y))
		}
		return out
	}
	for _, x := range t.objs {
		k, e := kidsOf(x)
		o.Kids, o.EKids = append(o.Kids, ids(k)), append(o.EKids, ids(e))
		l := 0
		if p := parentOf(x); p != nil {
			l = id(p)
		}
		o.Link = append(o.Link, l)
		o.Val = append(o.Val, valOf(x))
	}
	return
}

// ---------------------------------------------------------------- replay
type treeCase struct {
	Ops   []treeOp `json:"ops"`
	Kids  [][]int  `json:"kids"`
	EKids [][]int  `json:"ekids"`
	Link  [][]int  `json:"link"`
	Val   []int    `json:"val"`
}

func treeReplay(args []string) error {
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	sum := summary{Summary: true}
	bad := 0
	err = readCases(args[0], func(raw []byte) error {
		var c treeCase
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		sum.Cases++
		t := newTreeSess()
		pan := guard(func() string { b, _ := json.Marshal(c.Ops); return string(b) }, func() {
			for _, o := range c.Ops {
				t.do(o)
			}
		})
		got := t.look()
		what := ""
		switch {
		case pan != "":
			what = "panic: " + pan
		case t.err != "":
			what = t.err
		case !reflect.DeepEqual(got.Kids, c.Kids) || !reflect.DeepEqual(got.EKids, c.EKids):
			what = "children differ"
		case args[2] == "copies" && !reflect.DeepEqual(got.Val, c.Val):
			what = "values differ"
		default:
			for i, l := range got.Link {
				ok := false
				for _, p := range c.Link[i] {
					ok = ok || p == l
				}
				if !ok {
					what = fmt.Sprintf("the parent of object %d is %d", i+1, l)
				}
			}
		}
		sum.Checks += 4
		if len(sum.Samples) < 2 && sum.Cases%997 == 500 {
			sum.Samples = append(sum.Samples, c.Ops)
		}
		if what != "" {
			if bad++; bad <= 50 {
				w.put(mismatch{what, c.Ops, got, c})
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	w.put(sum)
	return w.close()
}

// ---------------------------------------------------------------- record
type treeStep struct {
	O   treeOp `json:"o"`
	Pan string `json:"pan"`
	Err string `json:"err"`
	treeObs
}

type treeRec struct {
	ID    string     `json:"id"`
	Steps []treeStep `json:"steps"`
}

var below = map[string]string{"M": "P", "P": "A", "A": "R", "R": "S"}

// unique: the tree below x has every object once
func unique(x any, seen map[any]bool) bool {
	if seen[x] {
		return false
	}
	seen[x] = true
	k, e := kidsOf(x)
	for _, y := range append(k, e...) {
		if !unique(y, seen) {
			return false
		}
	}
	return true
}

func treeSession(r *rand.Rand, id string, n int) treeRec {
	t := newTreeSess()
	if r.Intn(2) == 0 {
		t.deco = &structGen{r: r, g: &docGen{r: r}, pField: []float64{0.05, 0.2}[r.Intn(2)], maxDepth: 2, budget: 8}
	}
	rec := treeRec{ID: id, Steps: []treeStep{}}
	pick := func(kinds string) int {
		for i := 0; i < 30 && len(t.objs) > 0; i++ {
			x := 1 + r.Intn(len(t.objs))
			if r.Intn(2) == 0 { // rather a recent one
				x = len(t.objs) - r.Intn(min(len(t.objs), 6))
			}
			for _, k := range kinds {
				if t.kind(x) == string(k) {
					return x
				}
			}
		}
		return 0
	}
	for len(rec.Steps) < n && len(t.objs) < 60 {
		o := treeOp{}
		switch c := r.Intn(24); {
		case c < 5 || len(t.objs) < 4:
			o = treeOp{Op: "new", K: string("MPPAARRS"[r.Intn(8)])}
		case c < 12:
			o = treeOp{Op: "append", X: pick("MPAR")}
		case c < 14:
			o = treeOp{Op: "insert", X: pick("MPPPAR"), E: r.Intn(2) == 0}
		case c < 15:
			o = treeOp{Op: "drop", X: pick("MPAR"), E: r.Intn(2) == 0}
		case c < 17:
			o = treeOp{Op: "link", X: pick("PARS")}
		case c < 19:
			o = treeOp{Op: "val", X: pick("MPARS"), J: 1 + r.Intn(1000)}
		case c < 21:
			o = treeOp{Op: "setall", X: pick("MPAR")}
		case c < 23:
			o = treeOp{Op: "clone", X: pick("MPA")}
		default:
			o = treeOp{Op: "reread", X: pick("M")}
		}
		if o.Op != "new" && o.X == 0 {
			continue
		}
		var kids, ekids []any
		if o.X > 0 {
			kids, ekids = kidsOf(t.objs[o.X-1])
		}
		switch o.Op {
		case "append", "insert":
			if o.Y = pick(below[t.kind(o.X)]); o.Y == 0 {
				continue
			}
			o.E = o.E && t.kind(o.X) == "P"
			if o.Op == "append" {
				o.E = false
			} else if o.E {
				o.J = r.Intn(len(ekids) + 1)
			} else {
				o.J = r.Intn(len(kids) + 1)
			}
		case "drop":
			l := kids
			if o.E {
				l = ekids
			}
			if len(l) == 0 {
				continue
			}
			o.J = 1 + r.Intn(len(l))
		case "link":
			if r.Intn(3) > 0 {
				for k, v := range below {
					if v == t.kind(o.X) {
						o.Y = pick(k)
					}
				}
			}
		case "clone":
			if !unique(t.objs[o.X-1], map[any]bool{}) {
				continue
			}
		case "reread":
			if !unique(t.objs[o.X-1], map[any]bool{}) {
				continue
			}
		}
		st := treeStep{O: o}
		st.Pan = guard(func() string { b, _ := json.Marshal(append(rec.Steps, treeStep{O: o})); return string(b) }, func() { t.do(o) })
		st.Err = t.err
		st.treeObs = t.look()
		rec.Steps = append(rec.Steps, st)
		if st.Pan != "" || st.Err != "" {
			break
		}
	}
	return rec
}

func init() {
	register("tree-replay", treeReplay)
	register("tree-record", func(args []string) error {
		w, err := newRecWriter(args[0])
		if err != nil {
			return err
		}
		r := newRng(808)
		for i := 0; i < scale(500, 6000); i++ {
			w.put(treeSession(r, fmt.Sprintf("session:%d", i), 10+r.Intn(40)))
		}
		return w.close()
	})
}
