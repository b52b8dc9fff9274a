package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	m "github.com/Eyevinn/dash-mpd/mpd"
)

func digest(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:12])
}

type rwVar struct {
	WF     string `json:"wf"`
	T      *rnode `json:"t"`
	Header bool   `json:"header"`
	Decl   bool   `json:"decl"`
	Indent string `json:"indent"`
}

type rwRec struct {
	ID     string   `json:"id"`
	Pan    string   `json:"pan"`
	First  string   `json:"first"` // the first write was refused
	Err    string   `json:"err"`   // a later read or write was refused
	Outer  bool     `json:"outer"`
	Rounds []string `json:"rounds"`
	Texts  []string `json:"texts"`
	Vars   []rwVar  `json:"vars"`
	Wide   string   `json:"wide"` // at another scale
}

// rwWide: a letter of o written k times is written k times again
func rwWide(o, indent string, header bool, k int) string {
	s := wideText(o, k)
	if len(s) == len(o) || len(s) > 3000000 {
		return ""
	}
	x, err := m.ReadFromString(s)
	if err != nil {
		return fmt.Sprintf("%c written %d times: not read: %v", tgWide, k, err)
	}
	g, err := x.WriteToString(indent, header)
	if err != nil {
		return fmt.Sprintf("%c written %d times: not written: %v", tgWide, k, err)
	}
	if g != s {
		a, b := firstDiff(s, g)
		return fmt.Sprintf("%c written %d times is written otherwise: %s becomes %s", tgWide, k, a, b)
	}
	return ""
}

// lists of structs in a document, by where they are
func listsOf(v reflect.Value, path string, out *[]reflect.Value, names *[]string) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			listsOf(v.Elem(), path, out, names)
		}
	case reflect.Slice:
		e := v.Type().Elem()
		if e.Kind() == reflect.Pointer {
			e = e.Elem()
		}
		if e.Kind() != reflect.Struct || e.Name() == "Attr" || v.Len() == 0 || !v.CanSet() {
			return
		}
		*out = append(*out, v)
		*names = append(*names, path)
		for i := 0; i < v.Len(); i++ {
			listsOf(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out, names)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				listsOf(v.Field(i), path+"."+v.Type().Field(i).Name, out, names)
			}
		}
	}
}

// manyOf: how many entries a list gets
func manyOf(r *rand.Rand) int {
	if r.Intn(12) == 0 {
		return []int{10001, 16384, 20001, 32769, 66000}[r.Intn(5)]
	}
	return wideLens[3+r.Intn(len(wideLens)-8)]
}

// rwMany: with a list of one entry repeated k times, the markup of that entry
// is there k times, and it is read and written again as that
func rwMany(r *rand.Rand, d *m.MPD, indent string, header bool, k int) string {
	var lists []reflect.Value
	var names []string
	listsOf(reflect.ValueOf(d), "MPD", &lists, &names)
	if len(lists) == 0 {
		return ""
	}
	i := r.Intn(len(lists))
	l := lists[i]
	old := reflect.MakeSlice(l.Type(), l.Len(), l.Len())
	reflect.Copy(old, l)
	defer l.Set(old)
	e := l.Index(r.Intn(l.Len()))
	if e.Kind() == reflect.Pointer && e.IsNil() {
		return ""
	}
	e = reflect.ValueOf(e.Interface())
	write := func(n int) (string, error) {
		s := reflect.MakeSlice(l.Type(), n, n)
		for j := 0; j < n; j++ {
			s.Index(j).Set(e)
		}
		l.Set(s)
		return d.WriteToString(indent, header)
	}
	t1, err1 := write(1)
	t2, err2 := write(2)
	if err1 != nil || err2 != nil || len(t2) <= len(t1) {
		return "" // refused
	}
	n := len(t2) - len(t1)
	if n*k > 2500000 {
		k = 2 + 2500000/n
	}
	tk, err := write(k)
	what := fmt.Sprintf("%s with %d entries: ", names[i], k)
	if err != nil {
		return what + "not written: " + err.Error()
	}
	p := 0
	for p < len(t1) && t1[p] == t2[p] {
		p++
	}
	if p < n { // an empty element
		return ""
	}
	want := t2[:p] + strings.Repeat(t2[p-n:p], k-2) + t2[p:]
	if p+n <= len(t2) {
		want = t2[:p] + strings.Repeat(t2[p:p+n], k-2) + t2[p:]
	}
	if tk != want {
		a, b := firstDiff(want, tk)
		return what + "written otherwise: " + a + " becomes " + b
	}
	x, err := m.ReadFromString(tk)
	if err != nil {
		if _, err := m.ReadFromString(t2); err != nil {
			return "" // even two are not read
		}
		return what + "not read: " + err.Error()
	}
	g, err := x.WriteToString(indent, header)
	if err != nil {
		return what + "not written again: " + err.Error()
	}
	if g != tk {
		if x, err := m.ReadFromString(t2); err == nil {
			if g, _ := x.WriteToString(indent, header); g != t2 {
				return "" // even two are not kept, which is not about the number
			}
		}
		a, b := firstDiff(tk, g)
		return what + "read and written otherwise: " + a + " becomes " + b
	}
	return ""
}

func hasOuterExt(n *rnode) bool {
	if n.I {
		return true
	}
	for _, k := range n.K {
		if hasOuterExt(k) {
			return true
		}
	}
	return false
}

func rewriteRec(r *rand.Rand, id string, d *m.MPD) rwRec {
	rec := rwRec{ID: id, Rounds: []string{}, Texts: []string{}, Vars: []rwVar{}}
	indent, header := indentOf(r), r.Intn(2) == 0
	rec.Pan = guard(func() string { return "rewrite " + id }, func() {
		o1, err := d.WriteToString(indent, header)
		if err != nil {
			rec.First = errStr(err)
			return
		}
		if p, err := refParse(o1); err == nil {
			rec.Outer = hasOuterExt(p.Root)
		}
		rec.Rounds = append(rec.Rounds, digest(o1))
		prev := o1
		for i := 0; i < 2; i++ {
			x, err := m.ReadFromString(prev)
			if err != nil {
				rec.Err = errStr(err)
				rec.Texts = append(rec.Texts, cut(prev, 3000))
				return
			}
			o, err := x.WriteToString(indent, header)
			if err != nil {
				rec.Err = errStr(err)
				return
			}
			rec.Rounds = append(rec.Rounds, digest(o))
			if o != prev && len(rec.Texts) == 0 {
				a, b := firstDiff(prev, o)
				rec.Texts = append(rec.Texts, a, b)
			}
			prev = o
		}
		x, _ := m.ReadFromString(prev)
		if !rec.Outer && rec.Rounds[1] == rec.Rounds[0] {
			rec.Wide = rwWide(o1, indent, header, wideLens[r.Intn(len(wideLens))])
			if rec.Wide == "" && r.Intn(4) == 0 {
				rec.Wide = rwMany(r, x, indent, header, manyOf(r))
			}
		}
		for i, src := range []*m.MPD{d, d, x, x} {
			v := rwVar{T: emptyNode, Indent: []string{"", "  ", "\t", "      "}[(i+r.Intn(2))%4], Header: r.Intn(2) == 0}
			o, err := src.WriteToString(v.Indent, v.Header)
			if err != nil {
				rec.Err = errStr(err)
				return
			}
			p, err := refParse(o)
			if err != nil {
				v.WF = errStr(err)
			} else {
				v.T, v.Decl = p.Root, p.Decl && strings.HasPrefix(o, "<?xml")
				if p.NSErr != "" {
					v.WF = p.NSErr
				}
			}
			rec.Vars = append(rec.Vars, v)
		}
	})
	return rec
}

func firstDiff(a, b string) (string, string) {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 150
	if lo < 0 {
		lo = 0
	}
	return cut(a[lo:], 400), cut(b[lo:], 400)
}

// docSource: documents by number: cases first, then random ones
func randomDoc(r *rand.Rand, sch schemaT, types []string, i int, mode string) (*gnode, spellOpt) {
	o := profile(r, i)
	if i%3 == 0 {
		o.focus = types[(i/3)%len(types)]
	}
	g := &docGen{r: r, sch: sch, o: o}
	so := spellOpt{plain: r.Intn(8) == 0, sch: sch}
	if mode == "noise" {
		so.noise, so.doctype = 0.2, true
	}
	return g.doc(), so
}

func init() {
	register("rewrite-record", func(args []string) error {
		sch, docs, err := loadSchema(args[0])
		if err != nil {
			return err
		}
		r := newRng(202)
		w, err := newRecWriter(args[1])
		if err != nil {
			return err
		}
		types := sch.types()
		fromText := func(id, src string) {
			var d *m.MPD
			var rerr error
			if p := guard(func() string { return "read " + src }, func() { d, rerr = m.ReadFromString(src) }); p != "" || rerr != nil {
				return // C21
			}
			w.put(rewriteRec(r, id, d))
		}
		for i, d := range docs {
			if i%scale(3, 1) != 0 && d.D != nil && !strings.Contains(d.ID, ":nested:") && !strings.Contains(d.ID, ":all") {
				continue
			}
			d.D.typ = "MPD"
			fromText(d.ID, spellDoc(r, d.D, &spellOpt{sch: sch, plain: i%2 == 0}))
		}
		for i := 0; i < scale(400, 6000); i++ {
			d, so := randomDoc(r, sch, types, i, []string{"round", "noise"}[i%2])
			fromText(fmt.Sprintf("random:%d", i), spellDoc(r, d, &so))
		}
		for i := 0; i < scale(400, 6000); i++ {
			w.put(rewriteRec(r, fmt.Sprintf("struct:%d", i), randomStructGen(r).mpd()))
		}
		return w.close()
	})
}

func (s schemaT) types() []string {
	var types []string
	for t := range s {
		types = append(types, t)
	}
	sortStrings(types)
	return types
}
