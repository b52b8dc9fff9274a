package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unicode/utf8"

	m "github.com/Eyevinn/dash-mpd/mpd"
)

// ---------------------------------------------------------------- reading
type readOut struct {
	Err  string `json:"err"`
	None bool   `json:"none"`
}

type rejRec struct {
	ID    string    `json:"id"`
	S     cps       `json:"s"`    // the text, when short
	WF    string    `json:"wf"`   // what the referee says
	Tree  bool      `json:"tree"` // the referee sees a tree
	T     *rnode    `json:"t"`
	Want  string    `json:"want"`
	Out   []readOut `json:"out"`
	Same  bool      `json:"same"`
	Kept  bool      `json:"kept"`
	Alias bool      `json:"alias"`
	Again bool      `json:"again"`
	Pan   string    `json:"pan"`
	Txt   string    `json:"txt"`
}

func scratch() string {
	if d := os.Getenv("VV_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

func sameMPD(a, b *m.MPD) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil || reflect.DeepEqual(a, b) {
		return true
	}
	return reflect.DeepEqual(describeMPD(a), describeMPD(b)) // NaN is not equal to itself
}

func outOf(d *m.MPD, err error) readOut { return readOut{errStr(err), d == nil} }

// entries reads a text through every entry point
func entries(s string, rec *rejRec) {
	rec.Out, rec.Same, rec.Kept, rec.Again = []readOut{}, true, true, true
	rec.Pan = guard(func() string { return "read " + s }, func() {
		b := []byte(s)
		d1, err := m.MPDFromBytes(b)
		rec.Out = append(rec.Out, outOf(d1, err))
		rec.Kept = string(b) == s
		d2, err := m.ReadFromString(s)
		rec.Out = append(rec.Out, outOf(d2, err))
		f := filepath.Join(scratch(), "doc.mpd")
		if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
			panic(err)
		}
		d3, err := m.ReadFromFile(f)
		rec.Out = append(rec.Out, outOf(d3, err))
		after, _ := os.ReadFile(f)
		rec.Kept = rec.Kept && string(after) == s
		rec.Same = sameMPD(d1, d2) && sameMPD(d1, d3)
		if d1 != nil {
			before := describeMPD(d1)
			for i := range b {
				b[i] = 'Z'
			}
			rec.Alias = !reflect.DeepEqual(before, describeMPD(d1))
		}
	})
}

const goodDoc = `<?xml version="1.0"?><MPD xmlns="urn:mpeg:dash:schema:mpd:2011" id="g" type="static" minBufferTime="PT2S"><BaseURL>u</BaseURL><Period id="p" start="PT0S"><AdaptationSet id="1"><Representation id="r" bandwidth="7"/></AdaptationSet></Period></MPD>`

var goodWant = func() []string {
	d, err := m.ReadFromString(goodDoc)
	if err != nil {
		return []string{err.Error()}
	}
	return describeMPD(d)
}()

func stillGood(rec *rejRec) {
	if p := guard(func() string { return "read " + goodDoc }, func() {
		d, err := m.ReadFromString(goodDoc)
		rec.Again = err == nil && reflect.DeepEqual(describeMPD(d), goodWant)
	}); p != "" {
		rec.Pan = p
	}
}

// ---------------------------------------------------------------- replay
type rejCase struct {
	S    cps    `json:"s"`
	Want string `json:"want"`
	Why  string `json:"why"`
}

func rejectReplay(args []string) error {
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	sum := summary{Summary: true}
	bad := 0
	err = readCases(args[0], func(raw []byte) error {
		var c rejCase
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		s := c.S.text()
		sum.Cases++
		if len(sum.Samples) < 2 && c.Want == "refuse" && sum.Cases%97 == 5 {
			sum.Samples = append(sum.Samples, map[string]any{"text": s, "want": c.Want, "why": c.Why})
		}
		say := func(what string, got any) {
			if bad++; bad <= 50 {
				w.put(mismatch{what, s, got, c})
			}
		}
		var rec rejRec
		entries(s, &rec)
		if rec.Pan != "" {
			say("panic: "+rec.Pan, nil)
			return nil
		}
		for j, o := range rec.Out {
			sum.Checks++
			switch {
			case (o.Err == "") == o.None:
				say("not either an MPD or an error", rec.Out)
			case c.Want == "accept" && o.Err != "":
				say(fmt.Sprintf("refused by entry point %d: %s", j, o.Err), rec.Out)
			case c.Want == "refuse" && o.Err == "":
				say(fmt.Sprintf("accepted by entry point %d: %s", j, c.Why), rec.Out)
			case (o.Err == "") != (rec.Out[0].Err == ""):
				say("the entry points differ", rec.Out)
			}
		}
		if !rec.Same || !rec.Kept || rec.Alias {
			say("same, kept, alias", []bool{rec.Same, rec.Kept, rec.Alias})
		}
		if sum.Cases%50 == 0 {
			if stillGood(&rec); !rec.Again {
				say("a good document is no longer read", nil)
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	w.put(sum)
	return w.close()
}

// place of an attribute: the element chain from the root
type place struct {
	chain []sKid
	a     sAttr
	doc   func(v string) string
}

func places(r *rand.Rand, sch schemaT) map[string][]*place {
	g := &docGen{r: r, sch: sch}
	chain := map[string][]sKid{"MPD": {}}
	for queue := []string{"MPD"}; len(queue) > 0; queue = queue[1:] {
		for _, k := range sch[queue[0]].Kids {
			if _, ok := chain[k.T]; !ok {
				chain[k.T] = append(append([]sKid{}, chain[queue[0]]...), k)
				queue = append(queue, k.T)
			}
		}
	}
	out := map[string][]*place{}
	for _, t := range sch.types() {
		ch, ok := chain[t]
		if !ok {
			continue
		}
		for _, a := range sch[t].Attrs {
			p := &place{chain: ch, a: a}
			root := &gnode{S: nsDASH, N: "MPD", typ: "MPD"}
			x := root
			for _, k := range ch {
				y := &gnode{S: g.kidNS(k, x.S), N: k.N, typ: k.T}
				x.K = append(x.K, y)
				x = y
			}
			last := x
			p.doc = func(v string) string {
				last.A = []gattr{{p.a.S, p.a.N, v}}
				return spellDoc(r, root, &spellOpt{sch: sch, plain: true})
			}
			out[a.K] = append(out[a.K], p)
		}
	}
	return out
}

func (p *place) String() string {
	s := "MPD"
	for _, k := range p.chain {
		s += "/" + k.N
	}
	return s + "/@" + p.a.N
}

func valuesReplay(args []string) error {
	sch, _, err := loadSchema(args[0])
	if err != nil {
		return err
	}
	w, err := newRecWriter(args[2])
	if err != nil {
		return err
	}
	r := newRng(2121)
	pl := places(r, sch)
	sum := summary{Summary: true}
	bad := 0
	n := map[string]int{}
	err = readCases(args[1], func(raw []byte) error {
		var c struct {
			Kind string `json:"kind"`
			C    cps    `json:"c"`
			Want string `json:"want"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		if c.Want == "free" || len(pl[c.Kind]) == 0 {
			return nil
		}
		sum.Cases++
		ps := pl[c.Kind]
		if !(len(c.C) <= 1 || len(c.C) == 2 && thorough() || len(c.C) >= 8 && sum.Cases%7 == 0) {
			n[c.Kind]++
			ps = ps[n[c.Kind]%len(ps):][:1]
		}
		for _, p := range ps {
			sum.Checks++
			s := p.doc(c.C.text())
			var got error
			if pan := guard(func() string { return "read " + s }, func() { _, got = m.ReadFromString(s) }); pan != "" {
				got = fmt.Errorf("panic: %s", pan)
			}
			what := ""
			switch {
			case got != nil && (c.Want == "accept" || strings.HasPrefix(got.Error(), "panic:")):
				what = "value refused: " + errStr(got)
			case got == nil && c.Want == "refuse":
				what = "value outside its type accepted"
			default:
				continue
			}
			if bad++; bad <= 50 {
				w.put(mismatch{what, map[string]any{"place": p.String(), "value": c.C.text()}, errStr(got), c})
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	sum.Samples = []any{map[string]int{"places": func() (k int) {
		for _, p := range pl {
			k += len(p)
		}
		return
	}()}}
	w.put(sum)
	return w.close()
}

// ---------------------------------------------------------------- record
func rejText(id, s, want string) (rejRec, bool) {
	rec := rejRec{ID: id, S: cps{}, T: emptyNode, Want: want, Txt: cut(s, 2500)}
	if c := codesOf(s); len(c) <= 900 && want == "" {
		rec.S = c
	}
	if want == "cut" {
		rec.Want = "refuse"
	} else if want != "any" {
		p, err := refParse(s)
		switch {
		case err != nil:
			rec.WF = errStr(err)
		case p.NSErr == "":
			rec.Tree, rec.T = true, shallow(p.Root, 0)
			if p.Odd && want == "" {
				rec.Want = "any"
			}
		}
	}
	entries(s, &rec)
	return rec, rec.Pan == ""
}

// rejWide: the verdict on a text is the verdict on the text with one letter
// written k times; what was read is compared too
func rejWide(r *rand.Rand, id, s string, k int) (rejRec, bool) {
	var at []int
	for i, c := range s {
		if c != utf8.RuneError {
			at = append(at, i)
		}
	}
	in := []string{"ж", "<!--ж-->", "<?p ж?>", " y=\"ж\"", "<y>ж</y>"}[r.Intn(5)]
	for try := 0; try < 30; try++ {
		i := at[r.Intn(len(at))]
		if in == "ж" && r.Intn(8) != 0 && i > 0 && s[i-1] != '"' && s[i-1] != '>' {
			continue // mostly in values and texts
		}
		if in != "ж" && (i == 0 || s[i-1] != map[string]byte{"<!--ж-->": '>', "<?p ж?>": '>', " y=\"ж\"": '"', "<y>ж</y>": '>'}[in]) {
			continue
		}
		t := s[:i] + in + s[i:]
		rec, ok := rejText(id, t, "")
		if !ok || len(rec.S) == 0 {
			return rec, ok
		}
		small := rec.Out
		entries(strings.Replace(t, "ж", strings.Repeat("ж", k), 1), &rec)
		if len(small) > 0 && len(rec.Out) > 0 && (small[0].Err == "") != (rec.Out[0].Err == "") && rec.Want == "any" {
			rec.Same = false
		}
		rec.Txt = fmt.Sprintf("with %d ж: %s", k, rec.Txt)
		return rec, rec.Pan == ""
	}
	return rejRec{}, false
}

// around a document: what may and what may not stand before and after it
var around = []string{" ", "\n", "<!-- c -->", "<?pi x?>", "<!DOCTYPE MPD>", "x", "<MPD/>", "<Period/>", "</MPD>", "&amp;", "<", ">", "\ufeff", "<![CDATA[]]>", "<!--", "\x00", "&#32;", "<!-- MPD --><!-- -->", "<?xml version=\"1.0\"?>", "\xff"}

func nested(name string, n int) string { return strings.Repeat("<"+name+">", n) }

func rejectRecord(args []string) error {
	sch, _, err := loadSchema(args[0])
	if err != nil {
		return err
	}
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	r := newRng(2122)
	types := sch.types()
	put := func(id, s, want string) {
		rec, _ := rejText(id, s, want)
		if r.Intn(4) == 0 {
			stillGood(&rec)
		}
		w.put(rec)
	}
	// nothing to read
	dir := filepath.Join(scratch(), "dir.mpd")
	_ = os.MkdirAll(dir, 0o755)
	for _, f := range []string{filepath.Join(scratch(), "missing.mpd"), dir, ""} {
		rec := rejRec{ID: "file:" + filepath.Base(f), S: cps{}, T: emptyNode, Want: "refuse", Same: true, Kept: true, Again: true, Out: []readOut{}}
		rec.Pan = guard(func() string { return "ReadFromFile " + f }, func() {
			d, err := m.ReadFromFile(f)
			rec.Out = append(rec.Out, outOf(d, err))
		})
		w.put(rec)
	}
	{
		rec := rejRec{ID: "nil", S: cps{}, T: emptyNode, Want: "refuse", Same: true, Kept: true, Again: true, Out: []readOut{}}
		rec.Pan = guard(func() string { return "MPDFromBytes nil" }, func() {
			d, err := m.MPDFromBytes(nil)
			rec.Out = append(rec.Out, outOf(d, err))
		})
		w.put(rec)
	}
	// very deep and very long documents
	for _, n := range []int{200, 2000, scale(20000, 100000)} {
		for _, el := range []string{"x", "Period", "MPD", "AdaptationSet"} {
			put(fmt.Sprintf("deep:%s:%d", el, n), "<MPD>"+nested(el, n), "cut")
			put(fmt.Sprintf("deepok:%s:%d", el, n), "<MPD>"+nested(el, n)+strings.ReplaceAll(nested(el, n), "<", "</")+"</MPD>", "any")
		}
	}
	for _, root := range []string{"Period", "mpd", "MPDs", "x:Period", "html", "MP", "AdaptationSet"} {
		put("root:"+root, "<"+root+` xmlns="urn:mpeg:dash:schema:mpd:2011" xmlns:x="urn:mpeg:dash:schema:mpd:2011" type="static"/>`, "")
		put("root2:"+root, "<"+root+` xmlns="urn:mpeg:dash:schema:mpd:2011" xmlns:x="urn:x"><MPD type="static"/></`+root+`>`, "")
	}
	for i := 0; i < scale(200, 2000); i++ {
		k := wideLens[r.Intn(len(wideLens))]
		if i%10 == 0 {
			k = []int{1<<19 - 100, 1<<19 + 1, 1<<20 + 1, 1<<21 + 1}[r.Intn(4)]
		}
		g := &docGen{r: r, sch: sch, o: genOpt{pAttr: 0.1, pKid: 0.3, maxDepth: 2, budget: 6}}
		so := spellOpt{sch: sch, plain: r.Intn(2) == 0, doctype: true, noise: 0.1}
		s := spellDoc(r, g.doc(), &so)
		if r.Intn(3) == 0 {
			s = goodDoc
		}
		if len(codesOf(s)) > 850 {
			continue
		}
		if r.Intn(4) == 0 {
			s = damage(r, s)
		}
		if rec, ok := rejWide(r, fmt.Sprintf("wide:%d:%d", i, k), s, k); ok || rec.Pan != "" {
			w.put(rec)
		}
	}
	for i := 0; i < scale(2600, 15000); i++ {
		switch i % 10 {
		case 0, 1: // values outside their types
			o := profile(r, i)
			o.bad = []float64{0.01, 0.05, 0.3}[r.Intn(3)]
			o.focus = types[(i/10)%len(types)]
			g := &docGen{r: r, sch: sch, o: o}
			so := spellOpt{sch: sch, plain: r.Intn(3) == 0}
			put(fmt.Sprintf("bad:%d", i), spellDoc(r, g.doc(), &so), "")
		case 2: // one value that is wrong, anywhere
			o := profile(r, i)
			o.pAttr, o.pKid = 0.6, 0.3
			o.focus = types[(i/10)%len(types)]
			g := &docGen{r: r, sch: sch, o: o}
			d := g.doc()
			var all []*gnode
			var walk func(x *gnode)
			walk = func(x *gnode) {
				if len(x.A) > 0 && !x.Raw {
					all = append(all, x)
				}
				if x.Raw {
					return
				}
				for _, k := range x.K {
					walk(k)
				}
			}
			walk(d)
			for t := 0; t < 20 && len(all) > 0; t++ {
				x := all[r.Intn(len(all))]
				j := r.Intn(len(x.A))
				done := false
				for _, a := range sch[x.typ].Attrs {
					if a.N == x.A[j].N && a.S == x.A[j].S {
						if b, ok := g.badValue(a.K); ok {
							x.A[j].V, done = b, true
						}
					}
				}
				if done {
					break
				}
			}
			put(fmt.Sprintf("onebad:%d", i), spellDoc(r, d, &spellOpt{sch: sch, plain: true}), "")
		case 3: // cut off
			d, so := randomDoc(r, sch, types, i, []string{"round", "noise"}[r.Intn(2)])
			s := spellDoc(r, d, &so)
			if p, err := refParse(s); err == nil {
				put(fmt.Sprintf("cut:%d", i), s[:r.Intn(p.End)], "refuse")
			}
		case 4: // good ones, with something around them
			d, so := randomDoc(r, sch, types, i, []string{"round", "noise"}[r.Intn(2)])
			s := spellDoc(r, d, &so)
			for n := r.Intn(3); n > 0; n-- {
				a := around[r.Intn(len(around))]
				if r.Intn(2) == 0 && !strings.HasPrefix(s, "<?xml") {
					s = a + s
				} else {
					s += a
				}
			}
			put(fmt.Sprintf("around:%d", i), s, "")
		case 5, 6: // small documents, damaged
			o := genOpt{pAttr: 0.1, pKid: 0.3, maxDepth: 2, budget: 6}
			g := &docGen{r: r, sch: sch, o: o}
			so := spellOpt{sch: sch, plain: r.Intn(2) == 0, doctype: true, noise: 0.1}
			s := spellDoc(r, g.doc(), &so)
			put(fmt.Sprintf("damaged:%d", i), damage(r, cutCodes(s, 880)), "")
		case 7:
			a := ""
			for n := r.Intn(4); n > 0; n-- {
				a += around[r.Intn(len(around))]
			}
			s := []string{goodDoc, "<MPD/>", "<MPD></MPD>", `<?xml version="1.0"?><MPD id="&lt;"/>`}[r.Intn(4)]
			b := ""
			for n := r.Intn(4); n > 0; n-- {
				b += around[r.Intn(len(around))]
			}
			put(fmt.Sprintf("pieces:%d", i), a+s+b, "")
		case 8: // any markup under an MPD
			s := treeText(r, 1+r.Intn(3))
			if r.Intn(2) == 0 {
				s = damage(r, s)
			}
			put(fmt.Sprintf("tree:%d", i), "<MPD>"+cutCodes(s, 800)+"</MPD>", "")
		case 9: // the same kinds of damage in long documents: no crash, entry points agree
			d, so := randomDoc(r, sch, types, i, "noise")
			put(fmt.Sprintf("longdamaged:%d", i), damage(r, spellDoc(r, d, &so)), "")
		}
	}
	return w.close()
}

var _ = bytes.Equal

func init() {
	register("reject-replay", rejectReplay)
	register("values-replay", valuesReplay)
	register("reject-record", rejectRecord)
}
