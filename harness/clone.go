package main

import (
	"encoding/binary"
	"fmt"
	"hash"
	"hash/fnv"
	"io"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unsafe"

	m "github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

type memBlock struct {
	S      string `json:"s"`
	Lo     int    `json:"lo"`
	Hi     int    `json:"hi"`
	lo, hi uintptr
}

type cloneMut struct {
	S  string `json:"s"`
	At string `json:"at"`
	O0 string `json:"o0"`
	O1 string `json:"o1"`
	C0 string `json:"c0"`
	C1 string `json:"c1"`
}

type cloneRec struct {
	ID    string     `json:"id"`
	Pan   string     `json:"pan"`
	Err   string     `json:"err"`
	Eq    bool       `json:"eq"`
	Lo    []string   `json:"lo"`
	Lc    []string   `json:"lc"`
	Mem   []memBlock `json:"mem"`
	Stray []string   `json:"stray"`
	Muts  []cloneMut `json:"muts"`
	Wide  string     `json:"wide"` // a list that is made long
}

// mutPlace: something that can be changed through a value
type mutPlace struct {
	at string
	do func(r *rand.Rand)
}

// memWalk visits everything reachable from v: memory blocks that can be written
// through it, and the places where they can be changed.
type memWalk struct {
	blocks []memBlock
	places []mutPlace
	seen   map[uintptr]map[reflect.Type]bool
	side   string
}

func (w *memWalk) block(p uintptr, size uintptr) {
	if size > 0 && p != 0 {
		w.blocks = append(w.blocks, memBlock{S: w.side, lo: p, hi: p + size})
	}
}

func newVal(t reflect.Type) reflect.Value { return reflect.New(t).Elem() }

func (w *memWalk) visit(v reflect.Value, at string) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			if v.CanSet() && v.Type().Elem().Kind() != reflect.Struct {
				w.places = append(w.places, mutPlace{at + " := new", func(r *rand.Rand) {
					n := reflect.New(v.Type().Elem())
					mutateLeaf(n.Elem())
					v.Set(n)
				}})
			}
			return
		}
		if w.seen[v.Pointer()][v.Type()] {
			return
		}
		if w.seen[v.Pointer()] == nil {
			w.seen[v.Pointer()] = map[reflect.Type]bool{}
		}
		w.seen[v.Pointer()][v.Type()] = true
		w.block(v.Pointer(), v.Type().Elem().Size())
		w.visit(v.Elem(), at+"*")
	case reflect.Slice:
		w.block(v.Pointer(), uintptr(v.Cap())*v.Type().Elem().Size())
		if v.Len() > 0 {
			w.places = append(w.places, mutPlace{at + " cut", func(r *rand.Rand) {
				reflect.Copy(v, v.Slice(1, v.Len())) // moves the elements in place
				v.Set(v.Slice(0, v.Len()-1))
			}})
			for i := 0; i < v.Len(); i++ {
				w.visit(v.Index(i), fmt.Sprintf("%s[%d]", at, i))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			w.block(v.Pointer(), 1)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous { // what is not exported: looked at, not changed
				if f.Name != "parent" {
					fv := reflect.NewAt(f.Type, unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem()
					n := len(w.places)
					w.visit(fv, at+"."+f.Name)
					w.places = w.places[:n]
				}
				continue
			}
			if f.Type == tName {
				continue
			}
			w.visit(v.Field(i), at+"."+f.Name)
		}
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		if v.CanSet() {
			w.places = append(w.places, mutPlace{at, func(r *rand.Rand) { mutateLeaf(v) }})
		}
	}
}

// mutateLeaf gives v another value that shows
func mutateLeaf(v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(v.String() + "M")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() == 1e9 {
			v.SetInt(2e9)
		} else {
			v.SetInt(1e9)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() == 77 {
			v.SetUint(78)
		} else {
			v.SetUint(77)
		}
	case reflect.Float32, reflect.Float64:
		if v.Float() == 2.5 {
			v.SetFloat(3.5)
		} else {
			v.SetFloat(2.5)
		}
	case reflect.Slice:
		n := newVal(v.Type().Elem())
		mutateLeaf(n)
		v.Set(reflect.Append(v, n))
	case reflect.Struct:
	}
}

// say: everything a value holds, in lines
func say(x any) []string {
	var l []string
	describe(reflect.ValueOf(x).Elem(), "", &l)
	return l
}

// saysAll: a digest of all that a value holds, presence and lengths included
func saysAll(x any) string {
	h := fnv.New64a()
	fingerprint(h, reflect.ValueOf(x).Elem())
	return fmt.Sprintf("%016x", h.Sum64())
}

var openFields sync.Map // reflect.Type to []int

func fieldsOf(t reflect.Type) []int {
	known, ok := openFields.Load(t)
	l, _ := known.([]int)
	if !ok {
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); (f.PkgPath == "" || f.Anonymous) && f.Type != tName {
				l = append(l, i)
			}
		}
		openFields.Store(t, l)
	}
	return l
}

func fingerprint(h hash.Hash64, v reflect.Value) {
	num := func(n uint64) {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], n)
		h.Write(b[:])
	}
	switch k := v.Kind(); k {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			num(1)
			return
		}
		num(2)
		fingerprint(h, v.Elem())
	case reflect.Slice:
		num(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			fingerprint(h, v.Index(i))
		}
	case reflect.Struct:
		for _, i := range fieldsOf(v.Type()) {
			fingerprint(h, v.Field(i))
		}
	case reflect.String:
		num(uint64(v.Len()))
		io.WriteString(h, v.String())
	case reflect.Bool:
		if v.Bool() {
			num(3)
		} else {
			num(4)
		}
	default:
		switch {
		case v.CanInt():
			num(uint64(v.Int()))
		case v.CanUint():
			num(v.Uint())
		case v.CanFloat():
			num(math.Float64bits(v.Float()))
		}
	}
}

func strays(root any) []string {
	in := map[any]bool{}
	var all []any
	var walk func(x any)
	walk = func(x any) {
		if in[x] {
			return
		}
		in[x] = true
		all = append(all, x)
		k, e := kidsOf(x)
		for _, y := range append(k, e...) {
			walk(y)
		}
	}
	walk(root)
	out := []string{}
	for _, x := range all {
		if p := parentOf(x); p != nil && !in[p] {
			out = append(out, fmt.Sprintf("%T", x))
		}
	}
	return out
}

// number renumbers addresses
// Blocks of one side with nothing of the other between them are one: whether
// the two sides meet is the same.
func number(b []memBlock) []memBlock {
	sort.Slice(b, func(i, j int) bool { return b[i].lo < b[j].lo })
	o := []memBlock{}
	for _, x := range b {
		if n := len(o); n > 0 && o[n-1].S == x.S {
			o[n-1].hi = max(o[n-1].hi, x.hi)
		} else {
			o = append(o, x)
		}
	}
	b = o
	set := map[uintptr]bool{}
	for _, x := range b {
		set[x.lo], set[x.hi] = true, true
	}
	var l []uintptr
	for a := range set {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	rank := map[uintptr]int{}
	for i, a := range l {
		rank[a] = i
	}
	for i := range b {
		b[i].Lo, b[i].Hi = rank[b[i].lo], rank[b[i].hi]
	}
	return b
}

// fieldsIn: how much there is to look at
func fieldsIn(v reflect.Value) int {
	n := 1
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			n += fieldsIn(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += fieldsIn(v.Index(i))
		}
	case reflect.Struct:
		for _, i := range fieldsOf(v.Type()) {
			n += fieldsIn(v.Field(i))
		}
	}
	return n
}

// listPlace: a list, and the fields that lead to it from a root
type listPlace struct {
	root reflect.Type
	path []int
	at   string
}

// listPlaces: every list of every type that can be reached from root, each at
// the end of some of the shortest paths
func listPlaces(root reflect.Type, paths int) (out []listPlace) {
	type item struct {
		t    reflect.Type
		path []int
		at   string
	}
	seen := map[reflect.Type]int{}
	todo := []item{{root, nil, root.Name()}}
	for len(todo) > 0 {
		it := todo[0]
		todo = todo[1:]
		if seen[it.t]++; seen[it.t] > paths || len(it.path) > 9 {
			continue
		}
		for _, i := range fieldsOf(it.t) {
			f := it.t.Field(i)
			p := append(append([]int{}, it.path...), i)
			at := it.at + "." + f.Name
			if f.Type.Kind() == reflect.Slice && f.Type.Elem().Kind() != reflect.Uint8 {
				out = append(out, listPlace{root, p, at})
			}
			t := f.Type
			for t.Kind() == reflect.Pointer || t.Kind() == reflect.Slice {
				t = t.Elem()
			}
			if t.Kind() == reflect.Struct && t != tName {
				todo = append(todo, item{t, p, at})
			}
		}
	}
	return
}

// longList makes a value that has, at the place, a list of many elements
func (pl listPlace) longList(r *rand.Rand, most int) (any, int) {
	root := reflect.New(pl.root)
	v := root.Elem()
	for _, i := range pl.path[:len(pl.path)-1] {
		v = v.Field(i)
		for v.Kind() == reflect.Pointer || v.Kind() == reflect.Slice {
			if v.Kind() == reflect.Slice {
				v.Set(reflect.MakeSlice(v.Type(), 1, 1))
				v = v.Index(0)
			} else {
				v.Set(reflect.New(v.Type().Elem()))
				v = v.Elem()
			}
		}
	}
	v = v.Field(pl.path[len(pl.path)-1])
	s := &structGen{r: r, g: &docGen{r: r}, pField: 0.7, maxDepth: 1, budget: 10}
	l := reflect.MakeSlice(v.Type(), 0, 0)
	for n, k := 0, 1<<20; l.Len() < k; {
		e := newVal(v.Type().Elem())
		s.n = 0
		s.fill(e, "e", 1, nil)
		l = reflect.Append(l, e)
		if n += fieldsIn(e); l.Len() == 7 {
			if k = most / (n/7 + 1); k > 1100 && r.Intn(2) == 0 || k < 1025 && n < 25*7 {
				k = 1025 + r.Intn(70)
			}
		}
	}
	v.Set(l)
	switch x := root.Interface().(type) {
	case *m.MPD:
		x.SetParents()
	case *m.Period:
		x.SetParents()
	case *m.AdaptationSetType:
		x.SetParents()
	}
	return root.Interface(), l.Len()
}

// cloneWide: what is wrong with a clone of a value with a long list
func cloneWide(r *rand.Rand, pl listPlace, most int) string {
	id := "long list " + pl.at
	var o any
	k := 0
	if p := guard(func() string { return id }, func() { o, k = pl.longList(r, most) }); p != "" {
		return id + ": " + p
	}
	what := fmt.Sprintf("%d elements in %s: ", k, pl.at)
	rec := cloneRecord(r, id, o, 4)
	lo := digest(strings.Join(rec.Lo, "\n"))
	lc := digest(strings.Join(rec.Lc, "\n"))
	switch {
	case rec.Pan != "":
		return what + rec.Pan
	case rec.Err != "":
		return what + rec.Err
	case lo != lc:
		return what + "the clone differs"
	case !rec.Eq:
		return what + "the clone is written differently"
	case len(rec.Stray) > 0:
		return what + "a link of the clone leaves it"
	}
	for _, u := range rec.Muts {
		if u.S == "o" && u.C0 != u.C1 || u.S == "c" && u.O0 != u.O1 {
			return what + "a change shows on the other side: " + u.At
		}
	}
	for i := 1; i < len(rec.Mem); i++ {
		if a, b := rec.Mem[i-1], rec.Mem[i]; a.S != b.S && b.Lo < a.Hi {
			return what + "the clone shares memory with the original"
		}
	}
	return ""
}

func cloneRecord(r *rand.Rand, id string, o any, muts int) cloneRec {
	rec := cloneRec{ID: id, Lo: []string{}, Lc: []string{}, Mem: []memBlock{}, Stray: []string{}, Muts: []cloneMut{}}
	rec.Pan = guard(func() string { return "clone " + id }, func() {
		var c any
		switch x := o.(type) {
		case *m.MPD:
			c = m.Clone(x)
		case *m.Period:
			c = x.Clone()
		case *m.AdaptationSetType:
			c = x.Clone()
		}
		var a, b strings.Builder
		_, e1 := m.WriteXML(o, &a, "", false)
		_, e2 := m.WriteXML(c, &b, "", false)
		rec.Eq = a.String() == b.String() && (e1 == nil) == (e2 == nil)
		rec.Lo, rec.Lc = asciiLines(say(o)), asciiLines(say(c))
		wo := &memWalk{seen: map[uintptr]map[reflect.Type]bool{}, side: "o"}
		wo.visit(reflect.ValueOf(o), "")
		wc := &memWalk{seen: map[uintptr]map[reflect.Type]bool{}, side: "c"}
		wc.visit(reflect.ValueOf(c), "")
		rec.Mem = append(append(rec.Mem, wo.blocks...), wc.blocks...)
		rec.Mem = number(rec.Mem)
		rec.Stray = strays(c)
		do, dc := saysAll(o), saysAll(c)
		var ps []mutPlace
		n := len(wo.places)
		ps = append(append(ps, wo.places...), wc.places...)
		for _, j := range r.Perm(len(ps)) {
			if len(rec.Muts) >= muts {
				break
			}
			if strings.HasSuffix(ps[j].at, " cut") && r.Intn(3) > 0 { // elements that move end the life of other places
				continue
			}
			u := cloneMut{S: "o", At: ps[j].at, O0: do, C0: dc}
			if j >= n {
				u.S = "c"
			}
			// a change that a former cut undoes or hides is not one
			ps[j].do(r)
			do, dc = saysAll(o), saysAll(c)
			u.O1, u.C1 = do, dc
			if u.S == "o" && u.O0 == u.O1 || u.S == "c" && u.C0 == u.C1 {
				if u.O0 == u.O1 && u.C0 == u.C1 {
					continue // the place is no longer part of the value
				}
			}
			rec.Muts = append(rec.Muts, u)
		}
	})
	return rec
}

// words that mean something: to code that treats some values in its own way
var knownWords = []string{m.STATIC_TYPE, m.DYNAMIC_TYPE, m.LIST_TYPE, m.PROFILE_FULL, m.PROFILE_ONDEMAND, m.PROFILE_LIVE, m.PROFILE_LIST, m.PROFILE_SINGLE_PERIOD,
	m.AUDIO_CHANNEL_CONFIGURATION_CICP, m.AUDIO_CHANNEL_CONFIGURATION_MPEG_DASH, m.MIME_TYPE_VIDEO_MP4, m.MIME_TYPE_AUDIO_MP4, m.MIME_TYPE_TTML, m.DRM_WIDEVINE, m.DRM_PLAYREADY,
	"urn:mpeg:dash:mp4protection:2011", "urn:mpeg:dash:role:2011", "main", "video", "audio", "text", "video/mp4", "avc1.64001e", "mp4a.40.2", "en", "und", "1:1", "true", "cenc", "INF",
	"urn:scte:scte35:2013:xml", "urn:mpeg:dash:event:2012", "$Number$", "$RepresentationID$", "0", "1", "PT0S"}

// known gives some of the strings in v, one in n, a value that means something
func known(r *rand.Rand, v reflect.Value, n int) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			known(r, v.Elem(), n)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			known(r, v.Index(i), n)
		}
	case reflect.Struct:
		if v.Type() == tName {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			switch {
			case f.PkgPath != "" && !f.Anonymous:
			case f.Name == "Type" && f.Type.Kind() == reflect.Pointer && !v.Field(i).IsNil():
				v.Field(i).Elem().SetString(knownWords[r.Intn(3)])
			default:
				known(r, v.Field(i), n)
			}
		}
	case reflect.String:
		if v.CanSet() && r.Intn(n) == 0 {
			v.SetString(knownWords[r.Intn(len(knownWords))])
		}
	}
}

var _ = xml.Header

func init() {
	register("clone-record", func(args []string) error {
		sch, docs, err := loadSchema(args[0])
		if err != nil {
			return err
		}
		w, err := newRecWriter(args[1])
		if err != nil {
			return err
		}
		r := newRng(909)
		types := sch.types()
		part := func(d *m.MPD) any { // the MPD, or a part of it
			switch k := r.Intn(4); {
			case k == 0 && len(d.Periods) > 0:
				return d.Periods[r.Intn(len(d.Periods))]
			case k == 1 && len(d.Periods) > 0:
				p := d.Periods[r.Intn(len(d.Periods))]
				if as := append(append([]*m.AdaptationSetType{}, p.AdaptationSets...), p.EmptyAdaptationSets...); len(as) > 0 {
					return as[r.Intn(len(as))]
				}
			}
			return d
		}
		fromText := func(id, src string, whole bool) {
			var d *m.MPD
			var rerr error
			if p := guard(func() string { return "read " + src }, func() { d, rerr = m.ReadFromString(src) }); p != "" || rerr != nil {
				return
			}
			known(r, reflect.ValueOf(d), 3)
			var x any = d
			if !whole {
				x = part(d)
			}
			w.put(cloneRecord(r, id, x, scale(14, 60)))
		}
		for i, d := range docs {
			if i%scale(2, 1) != 0 && !strings.Contains(d.ID, ":all") {
				continue
			}
			d.D.typ = "MPD"
			fromText(d.ID, spellDoc(r, d.D, &spellOpt{sch: sch, plain: true}), true)
		}
		for i := 0; i < scale(250, 3000); i++ {
			o := profile(r, i)
			o.focus = types[i%len(types)]
			if o.budget > 30 && i%5 > 0 {
				o.budget = 20
			}
			o.bigN = false
			g := &docGen{r: r, sch: sch, o: o}
			fromText(fmt.Sprintf("random:%d", i), spellDoc(r, g.doc(), &spellOpt{sch: sch}), false)
		}
		for i := 0; i < scale(250, 3000); i++ {
			d := randomStructGen(r).mpd()
			known(r, reflect.ValueOf(d), 3)
			x := part(d)
			w.put(cloneRecord(r, fmt.Sprintf("struct:%d", i), x, scale(14, 60)))
		}
		for _, root := range []any{m.AdaptationSetType{}, m.Period{}, m.MPD{}} {
			for i, pl := range listPlaces(reflect.TypeOf(root), scale(2, 8)) {
				rec := cloneRecord(r, fmt.Sprintf("list:%d", i), &m.MPD{}, 1)
				rec.ID = pl.at
				rec.Wide = cloneWide(r, pl, scale(9000, 60000))
				w.put(rec)
			}
		}
		return w.close()
	})
}
