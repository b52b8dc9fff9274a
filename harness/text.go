package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	m "github.com/Eyevinn/dash-mpd/mpd"
	x "github.com/Eyevinn/dash-mpd/xml"
)

const marker = "VVPLACE"

// textPlace is a string attribute or text of the schema: a document with the marker there.
type textPlace struct {
	chain []sKid
	a     *sAttr // nil: the text of the element
	src   string
	// the document as the library holds it, and its string
	mpd  *m.MPD
	strs []reflect.Value
}

func (p *textPlace) String() string {
	s := "MPD"
	for _, k := range p.chain {
		s += "/" + k.N
	}
	if p.a == nil {
		return s
	}
	return s + "/@" + p.a.N
}

// stringsOf finds the strings of a value that are equal to s.
func stringsOf(v reflect.Value, s string, out *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			stringsOf(v.Elem(), s, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				stringsOf(v.Field(i), s, out)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			stringsOf(v.Index(i), s, out)
		}
	case reflect.String:
		if v.String() == s && v.CanSet() {
			*out = append(*out, v)
		}
	}
}

// refAt finds the string of the place in a document the referee has read.
func (p *textPlace) refAt(d *refDoc) (string, error) {
	n := d.Root
	for i, k := range p.chain {
		var y *rnode
		for _, c := range n.K {
			if c.N == k.N {
				if y != nil {
					return "", fmt.Errorf("two elements %s", k.N)
				}
				y = c
			}
		}
		if y == nil {
			if p.a == nil && i == len(p.chain)-1 {
				return "", nil // an empty string may be left out
			}
			return "", fmt.Errorf("no element %s", k.N)
		}
		n = y
	}
	if p.a == nil {
		return n.T, nil
	}
	for _, a := range n.A {
		if a.N == p.a.N && (a.S == p.a.S) {
			return a.V, nil
		}
	}
	return "", nil // an empty value may be left out
}

func textPlaces(r *rand.Rand, sch schemaT) ([]*textPlace, error) {
	g := &docGen{r: r, sch: sch}
	chain := map[string][]sKid{"MPD": {}}
	for queue := []string{"MPD"}; len(queue) > 0; queue = queue[1:] {
		for _, k := range sch[queue[0]].Kids {
			if _, ok := chain[k.T]; !ok {
				chain[k.T] = append(append([]sKid{}, chain[queue[0]]...), k)
				queue = append(queue, k.T)
			}
		}
	}
	var out []*textPlace
	for _, t := range sch.types() {
		ch, ok := chain[t]
		if !ok {
			continue
		}
		add := func(a *sAttr) {
			root := &gnode{S: nsDASH, N: "MPD", typ: "MPD"}
			n := root
			for _, k := range ch {
				y := &gnode{S: g.kidNS(k, n.S), N: k.N, typ: k.T}
				n.K = append(n.K, y)
				n = y
			}
			if a != nil {
				n.A = []gattr{{a.S, a.N, marker}}
			} else {
				n.T = marker
			}
			p := &textPlace{chain: ch, a: a}
			for tries := 0; ; tries++ {
				p.src = spellDoc(r, root, &spellOpt{sch: sch, plain: true})
				if strings.Count(p.src, marker) == 1 { // not spelled with references
					break
				}
				if tries > 1000 {
					return
				}
			}
			var err error
			if p.mpd, err = m.ReadFromString(p.src); err != nil {
				return // not a string: the schema restricts it
			}
			stringsOf(reflect.ValueOf(p.mpd), marker, &p.strs)
			if len(p.strs) == 1 {
				out = append(out, p)
			}
		}
		for i := range sch[t].Attrs {
			if a := &sch[t].Attrs[i]; a.K == "s" {
				add(a)
			}
		}
		if sch[t].Text == "text" {
			add(nil)
		}
	}
	if len(out) < 100 {
		return nil, fmt.Errorf("only %d places for strings", len(out))
	}
	return out, nil
}

// ---------------------------------------------------------------- runs

type run struct {
	F int `json:"f"`
	D int `json:"d"`
	N int `json:"n"`
}

func runsOf(s string) []run {
	out := []run{}
	for _, c := range codesOf(s) {
		if l := len(out) - 1; l >= 0 {
			r := &out[l]
			if r.N == 1 && (c == r.F || c == r.F+1) {
				r.D = c - r.F
				r.N = 2
				continue
			}
			if r.N > 1 && c == r.F+r.D*r.N {
				r.N++
				continue
			}
		}
		out = append(out, run{c, 0, 1})
	}
	return out
}

type textOut struct {
	At  string `json:"at"`
	Got []run  `json:"got"`
	Err string `json:"err"`
}

type textRec struct {
	ID   string    `json:"id"`
	Pan  string    `json:"pan"`
	In   []run     `json:"in"`
	Outs []textOut `json:"outs"`
	Doc  cps       `json:"doc"`
}

// a struct with a string in every way the xml package knows
type textT struct {
	XMLName x.Name `xml:"e"`
	A       string `xml:"a,attr"`
	T       string `xml:"t"`
	C       struct {
		V string `xml:",cdata"`
	} `xml:"c"`
}
type wayT struct {
	XMLName x.Name   `xml:"e"`
	B       []byte   `xml:"b,attr"`
	P       *string  `xml:"p,attr"`
	M       textM    `xml:"m,attr"`
	L       []string `xml:"l>l"`
	Y       []byte   `xml:"y"`
	Q       *string  `xml:"q"`
	N       textM    `xml:"n"`
	K       struct { // mixed with elements
		V []byte `xml:",chardata"`
		W string `xml:"w,omitempty"`
	} `xml:"k"`
	D struct {
		V []byte `xml:",cdata"`
	} `xml:"d"`
}
type textM struct{ s string }

func (t textM) MarshalText() ([]byte, error)  { return []byte(t.s), nil }
func (t *textM) UnmarshalText(b []byte) error { t.s = string(b); return nil }

// refStrings are the strings of a document, by path
func refStrings(n *rnode, path string, out map[string]string) {
	for _, a := range n.A {
		out[path+"@"+a.N] = a.V
	}
	if n.T != "" {
		out[path] = n.T
	}
	for _, k := range n.K {
		refStrings(k, path+"/"+k.N, out)
	}
}

type textRecorder struct {
	r      *rand.Rand
	places []*textPlace
	n      int
}

func (t *textRecorder) outs(v string, places int) (rec textRec) {
	rec = textRec{In: runsOf(v), Outs: []textOut{}, Doc: cps{}}
	put := func(at, got string, err error) { rec.Outs = append(rec.Outs, textOut{at, runsOf(got), errStr(err)}) }
	rec.Pan = guard(func() string { return fmt.Sprintf("write and read the string %+q", cut(v, 2000)) }, func() {
		// 1. through Marshal and Unmarshal
		var a textT
		a.A, a.T, a.C.V = v, v, v
		var b []byte
		var err error
		if t.n%3 == 0 {
			b, err = x.MarshalIndent(&a, "", " ")
		} else {
			b, err = x.Marshal(&a)
		}
		if err != nil {
			put("Marshal", "", err)
			return
		}
		if len(b) < 300 && t.n%3 != 0 {
			rec.Doc = codesOf(string(b))
		}
		var c textT
		err = x.Unmarshal(b, &c)
		put("attribute", c.A, err)
		put("element", c.T, err)
		put("CDATA", c.C.V, err)
		d, err := refParse(string(b))
		got := map[string]string{}
		if err == nil {
			refStrings(d.Root, "", got)
		}
		put("written attribute", got["@a"], err)
		put("written element", got["/t"], err)
		put("written CDATA", got["/c"], err)
		if t.n%4 == 0 { // 2. all other forms of strings
			w := wayT{B: []byte(v), P: &v, M: textM{v}, L: []string{v, v}, Y: []byte(v), Q: &v, N: textM{v}}
			w.K.V, w.K.W, w.D.V = []byte(v), "w", []byte(v)
			b, err := x.Marshal(&w)
			if err != nil {
				put("Marshal", "", err)
				return
			}
			var u wayT
			err = x.Unmarshal(b, &u)
			at := func(name, s string) { put(name, s, err) }
			at("[]byte attribute", string(u.B))
			if u.P == nil || u.Q == nil || len(u.L) != 2 {
				put("pointers and slices", "", errors.New("lost"))
				return
			}
			at("*string attribute", *u.P)
			at("TextMarshaler attribute", u.M.s)
			at("first of a slice", u.L[0])
			at("second of a slice", u.L[1])
			at("[]byte element", string(u.Y))
			at("*string element", *u.Q)
			at("TextMarshaler element", u.N.s)
			at("[]byte text", string(u.K.V))
			at("[]byte CDATA", string(u.D.V))
			if b, err = x.Marshal(&struct {
				XMLName x.Name `xml:"e"`
				I       any    `xml:"i,attr"`
				J       any    `xml:"j"`
			}{I: v, J: []any{&v}}); err != nil {
				put("Marshal", "", err)
				return
			}
			d, err := refParse(string(b))
			got = map[string]string{}
			if err == nil {
				refStrings(d.Root, "", got)
			}
			put("written interface attribute", got["@i"], err)
			put("written interface element", got["/j"], err)
		}
		// 3. escaping alone, and tokens
		for _, f := range []struct {
			at string
			do func(b *bytes.Buffer) error
		}{
			{"EscapeText", func(b *bytes.Buffer) error {
				b.WriteString("<e>")
				err := x.EscapeText(b, []byte(v))
				b.WriteString("</e>")
				return err
			}},
			{"Escape", func(b *bytes.Buffer) error {
				b.WriteString("<e>")
				x.Escape(b, []byte(v))
				b.WriteString("</e>")
				return nil
			}},
			{"EncodeToken", func(b *bytes.Buffer) error {
				e := x.NewEncoder(b)
				n := x.Name{Local: "e"}
				if err := e.EncodeToken(x.StartElement{Name: n, Attr: []x.Attr{{Name: x.Name{Local: "a"}, Value: v}}}); err != nil {
					return err
				}
				if err := e.EncodeToken(x.CharData(v)); err != nil {
					return err
				}
				if err := e.EncodeToken(x.EndElement{Name: n}); err != nil {
					return err
				}
				return e.Close()
			}},
		} {
			var b bytes.Buffer
			if err := f.do(&b); err != nil {
				put(f.at, "", err)
				continue
			}
			d, err := refParse(b.String())
			if err != nil {
				put(f.at, "", err)
				continue
			}
			put(f.at, d.Root.T, nil)
			if len(d.Root.A) == 1 {
				put(f.at+" attribute", d.Root.A[0].V, nil)
			} else if f.at == "EncodeToken" {
				put(f.at, "", errors.New("attribute lost"))
			}
		}
		// 4. in documents
		for i := 0; i < places; i++ {
			p := t.places[(t.n*places+i)%len(t.places)]
			p.strs[0].SetString(v)
			o, err := p.mpd.WriteToString(indentOf(t.r), t.n%2 == 0)
			p.strs[0].SetString(marker)
			if err != nil {
				put(p.String(), "", err)
				continue
			}
			d, err := refParse(o)
			s := ""
			if err == nil {
				s, err = p.refAt(d)
			}
			put(p.String(), s, err)
			g, err := m.ReadFromString(o)
			if err != nil {
				put(p.String()+" read again", "", err)
				continue
			}
			o2, err := g.WriteToString("", false)
			if d, e := refParse(o2); err == nil {
				if err = e; e == nil {
					s, err = p.refAt(d)
				}
			}
			put(p.String()+" read again", s, err)
		}
	})
	t.n++
	return rec
}

func textRecord(args []string) error {
	sch, _, err := loadSchema(args[0])
	if err != nil {
		return err
	}
	r := newRng(505)
	t := &textRecorder{r: r}
	if t.places, err = textPlaces(r, sch); err != nil {
		return err
	}
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	put := func(id, v string, places int) {
		rec := t.outs(v, places)
		rec.ID = id
		w.put(rec)
	}
	// every code point there is, in blocks
	const B = 256
	for lo := 0; lo <= 0x10FFFF; lo += B {
		var b strings.Builder
		for c := lo; c < lo+B; c++ {
			if c >= 0xD800 && c < 0xE000 {
				b.Write([]byte{0xED, byte(0x80 | c>>6&0x3f), byte(0x80 | c&0x3f)})
				continue
			}
			b.WriteRune(rune(c))
		}
		put(fmt.Sprintf("block:%x", lo), b.String(), scale(1, 4))
	}
	// every byte alone, and every broken beginning of a character
	for c := 0; c < 256; c++ {
		put(fmt.Sprintf("byte:%x", c), string([]byte{byte(c)}), 2)
		put(fmt.Sprintf("bytes:%x", c), string([]byte{'a', byte(c), 0x80, '<', byte(c), '>'}), 1)
	}
	// every place with every troublesome string
	for i, v := range append([]string{"", " ", "  x ", "\t", "\n", "\r", "\r\n", "\n\r", "a\nb", "a\tb", "]]>", "]]]]>>", "]]", "]", "]>", "]]\r>", "&amp;", "&#13;", "<MPD>", "</BaseURL>", "\"'", "<!--", "-->", "\ufeff", "\x00", "\ufffe\uffff", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\u0085\u2028", "😀"}, strPool...) {
		put(fmt.Sprintf("special:%d", i), v, len(t.places))
	}
	// long strings with something special near the ends of the buffers
	for i := 0; i < scale(250, 2500); i++ {
		var b strings.Builder
		b.WriteString(strings.Repeat(string("a é"[r.Intn(2)]), []int{0, 4000, 4080, 4090, 8160, 12250}[r.Intn(6)]+r.Intn(30)))
		for j := 0; j < 1+r.Intn(20); j++ {
			b.WriteString([]string{"&", "<", "]]>", "\r\n", "\r", "\n", "é", "😀", "\x00", "\xff", "\"", "x", "]", "\t", " "}[r.Intn(15)])
		}
		b.WriteString(strings.Repeat("b", r.Intn(5000)))
		put(fmt.Sprintf("long:%d", i), b.String(), 1)
	}
	// and random ones
	letters := []rune("]]>>&&\r\r\n\n<<ab\"'\t  \x00\ufffe\ufffd;#!-[CDATA?é\u2028😀\U0010ffff")
	for i := 0; i < scale(2500, 20000); i++ {
		var b strings.Builder
		for j := r.Intn(30); j >= 0; j-- {
			if r.Intn(15) == 0 {
				b.WriteByte(byte(128 + r.Intn(128)))
				continue
			}
			b.WriteRune(letters[r.Intn(len(letters))])
		}
		put(fmt.Sprintf("random:%d", i), b.String(), 1)
	}
	return w.close()
}

// textReplay: strings with what has to come back (mode "write"), spelled text
// with what it denotes (mode "read").
func textReplay(args []string) error {
	sch, _, err := loadSchema(args[0])
	if err != nil {
		return err
	}
	r := newRng(515)
	t := &textRecorder{r: r}
	if t.places, err = textPlaces(r, sch); err != nil {
		return err
	}
	var inText, inAttr []*textPlace
	for _, p := range t.places {
		if p.a == nil {
			inText = append(inText, p)
		} else {
			inAttr = append(inAttr, p)
		}
	}
	w, err := newRecWriter(args[2])
	if err != nil {
		return err
	}
	sum := summary{Summary: true, Samples: []any{map[string]int{"places": len(t.places), "of text": len(inText)}}}
	bad := 0
	miss := func(what string, c, got, want any) {
		if bad++; bad <= 50 {
			w.put(mismatch{what, c, got, want})
		}
	}
	type wantT struct {
		Want string `json:"want"`
		V    cps    `json:"v"`
	}
	err = readCases(args[1], func(raw []byte) error {
		var c struct {
			S    cps   `json:"s"`
			V    cps   `json:"v"`
			Text wantT `json:"text"`
			Quot wantT `json:"quot"`
			Apos wantT `json:"apos"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		sum.Cases++
		s := c.S.text()
		if args[3] == "write" {
			if !reflect.DeepEqual(codesOf(s), c.S) { // loose bytes that make up a character: another string
				return nil
			}
			rec := t.outs(s, 1)
			if rec.Pan != "" {
				miss("panic: "+rec.Pan, fmt.Sprintf("%+q", s), "", "")
			}
			want := runsOf(c.V.text())
			torn := s != strings.ToValidUTF8(s, "")
			for _, o := range rec.Outs {
				sum.Checks++
				if o.Err != "" {
					miss(o.Err+" at "+o.At, fmt.Sprintf("%+q", s), "", c.V)
				} else if !reflect.DeepEqual(o.Got, want) && !torn { // how torn characters come back is judged by TLC
					miss("another string comes back at "+o.At, fmt.Sprintf("%+q", s), o.Got, want)
				}
			}
			return nil
		}
		for _, k := range []struct {
			want   wantT
			places []*textPlace
			quote  string
		}{{c.Text, inText, ""}, {c.Quot, inAttr, "\""}, {c.Apos, inAttr, "'"}} {
			if k.want.Want == "free" || k.quote != "" && strings.Contains(s, k.quote) { // the quote in it ends the value
				continue
			}
			p := k.places[sum.Cases%len(k.places)]
			src := strings.Replace(p.src, marker, s, 1)
			if k.quote != "" {
				i := strings.Index(p.src, marker)
				src = p.src[:i-1] + k.quote + s + k.quote + p.src[i+len(marker)+1:]
			}
			sum.Checks++
			var err error
			got := ""
			pan := guard(func() string { return "read " + src }, func() {
				var d *m.MPD
				if d, err = m.ReadFromString(src); err != nil {
					return
				}
				var o string
				if o, err = d.WriteToString("", false); err != nil {
					return
				}
				var rd *refDoc
				if rd, err = refParse(o); err != nil {
					return
				}
				got, err = p.refAt(rd)
			})
			switch {
			case pan != "":
				miss("panic: "+pan, src, "", "")
			case k.want.Want == "refuse":
				if err == nil {
					miss("a string that is not well formed is accepted at "+p.String(), src, got, "")
				}
			case err != nil:
				miss("string refused at "+p.String(), src, errStr(err), k.want.V)
			case got != k.want.V.text():
				miss("another string is read at "+p.String(), src, fmt.Sprintf("%+q", got), fmt.Sprintf("%+q", k.want.V.text()))
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	w.put(sum)
	return w.close()
}

func init() {
	register("text-record", textRecord)
	register("text-replay", textReplay)
}
