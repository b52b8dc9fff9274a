package main

// C19: Go values of struct types made with reflect, written and read by package
// xml, over types and values that TLC exports from TagsMC and generated ones.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"testing/iotest"

	x "github.com/Eyevinn/dash-mpd/xml"
)

type tgType struct {
	Xn string    `json:"xn"`
	S  string    `json:"s"`
	P  string    `json:"p"`
	N  string    `json:"n"`
	F  []tgField `json:"f"`
	Xt *string   `json:"xt,omitempty"` // the tag of XMLName as it is
}

type tgField struct {
	M    string   `json:"m"`
	S    string   `json:"s"`
	P    string   `json:"p"`
	N    string   `json:"n"`
	Par  []string `json:"par"`
	Om   bool     `json:"om"`
	K    string   `json:"k"`
	Ptr  bool     `json:"ptr"`
	Sl   bool     `json:"sl"`
	T    *tgType  `json:"t,omitempty"`
	Eb   int      `json:"eb"`            // number of the embedded struct, 0 for none
	Ebp  bool     `json:"ebp"`           // it is embedded by pointer
	D    int      `json:"d"`             // depth of embedding
	Bare bool     `json:"bare"`          // no name in the tag
	Tag  *string  `json:"tag,omitempty"` // the tag as it is (spec/TagTextMC.tla)
}

type tgName struct {
	S string `json:"s"`
	N string `json:"n"`
}

type tgVal struct {
	Nm tgName `json:"nm"`
	V  []tgFV `json:"v"`
}

type tgFV struct {
	Nil bool     `json:"nil"`
	Off bool     `json:"off"`
	L   []tgItem `json:"l"`
}

type tgItem struct {
	S  string `json:"s"`
	N  string `json:"n"`
	C  cps    `json:"c"`
	St *tgVal `json:"st,omitempty"`
}

type tgEl struct {
	S   string   `json:"s"`
	N   string   `json:"n"`
	A   []tgItem `json:"a"`
	I   []tgCont `json:"i"`
	Raw cps      `json:"raw"`
}

type tgCont struct {
	T string `json:"t"` // "e" "t" "c"
	C cps    `json:"c"`
	E *tgEl  `json:"e,omitempty"`
}

type tgStart struct {
	Use bool    `json:"use"`
	S   string  `json:"s"`
	N   string  `json:"n"`
	A   []tgAtt `json:"a"`
}

type tgAtt struct {
	S string `json:"s"`
	N string `json:"n"`
	K string `json:"k"`
	C cps    `json:"c"`
}

type tgRec struct {
	ID    string  `json:"id"`
	Op    string  `json:"op"`
	T     *tgType `json:"t"`
	X     *tgVal  `json:"x"`
	Start tgStart `json:"start"`
	Ind   bool    `json:"ind"`
	El    *tgEl   `json:"el"`
	WF    string  `json:"wf"`
	Err   string  `json:"err"`
	Rerr  string  `json:"rerr"`
	Back  *tgVal  `json:"back"`
	Pan   string  `json:"pan"`
	Wide  string  `json:"wide"`
	Txt   string  `json:"txt"`
	Go    string  `json:"go"`
}

// a type with its own text form
type tgText string

func (t tgText) MarshalText() ([]byte, error) { return []byte("[" + string(t) + "]"), nil }
func (t *tgText) UnmarshalText(b []byte) error {
	if len(b) < 2 || b[0] != '[' || b[len(b)-1] != ']' {
		return fmt.Errorf("no brackets: %q", b)
	}
	*t = tgText(b[1 : len(b)-1])
	return nil
}

// a type with its own XML forms
type tgOwn string

func (o tgOwn) MarshalXML(e *x.Encoder, start x.StartElement) error {
	return e.EncodeElement("{"+string(o)+"}", start)
}

func (o *tgOwn) set(s string) error {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return fmt.Errorf("no braces: %q", s)
	}
	*o = tgOwn(s[1 : len(s)-1])
	return nil
}

func (o *tgOwn) UnmarshalXML(d *x.Decoder, start x.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return o.set(s)
}

func (o tgOwn) MarshalXMLAttr(name x.Name) (x.Attr, error) {
	return x.Attr{Name: name, Value: "{" + string(o) + "}"}, nil
}

func (o *tgOwn) UnmarshalXMLAttr(a x.Attr) error { return o.set(a.Value) }

var tgKinds = map[string]reflect.Type{
	"s": reflect.TypeFor[string](), "bytes": reflect.TypeFor[[]byte](), "tm": reflect.TypeFor[tgText](), "mx": reflect.TypeFor[tgOwn](), "b": reflect.TypeFor[bool](),
	"i8": reflect.TypeFor[int8](), "i16": reflect.TypeFor[int16](), "i32": reflect.TypeFor[int32](), "i64": reflect.TypeFor[int64](),
	"u8": reflect.TypeFor[uint8](), "u16": reflect.TypeFor[uint16](), "u32": reflect.TypeFor[uint32](), "u64": reflect.TypeFor[uint64](),
	"f32": reflect.TypeFor[float32](), "f64": reflect.TypeFor[float64](), "attr": reflect.TypeFor[x.Attr](),
}

func nsTag(s, p, n string) string {
	if p != "" && n != "" {
		n = p + ":" + n
	}
	if s != "" {
		return s + " " + n
	}
	return n
}

func (f *tgField) tag() string {
	if f.Tag != nil {
		return *f.Tag
	}
	om := ""
	if f.Om {
		om = ",omitempty"
	}
	n := ""
	if !f.Bare {
		n = f.N
		if f.P != "" {
			n = f.P + ":" + n
		}
		n = strings.Join(append(append([]string{}, f.Par...), n), ">")
		if f.S != "" {
			n = f.S + " " + n
		}
	}
	switch f.M {
	case "elem":
		return n + om
	case "attr":
		return n + ",attr" + om
	case "chardata", "cdata", "comment", "any":
		return "," + f.M + map[bool]string{true: om}[f.M == "any"]
	case "inner":
		return ",innerxml"
	case "anyattr":
		return ",any,attr"
	}
	return "-"
}

type (
	tgS   string
	tgB   []byte
	tgI32 int32
	tgU16 uint16
	tgF64 float64
	tgOn  bool
)

// tgNamed has types made of those in tgKinds, that some of the fields get instead
var tgNamed = map[string]reflect.Type{
	"s": reflect.TypeFor[tgS](), "bytes": reflect.TypeFor[tgB](), "b": reflect.TypeFor[tgOn](),
	"i32": reflect.TypeFor[tgI32](), "u16": reflect.TypeFor[tgU16](), "f64": reflect.TypeFor[tgF64](),
}

var tgWhich uint32 // decides which, within a record

func (f *tgField) rtype() reflect.Type {
	t := tgKinds[f.K]
	if n, ok := tgNamed[f.K]; ok && crc32.ChecksumIEEE([]byte(f.tag()))>>(tgWhich%16)&1 == 1 {
		t = n
	}
	if f.K == "struct" {
		t = f.T.rtype()
	}
	if f.Ptr {
		t = reflect.PointerTo(t)
	}
	if f.Sl {
		t = reflect.SliceOf(t)
	}
	return t
}

func fieldName(i int) string { return fmt.Sprintf("F%d", i+1) }

func (t *tgType) rtype() reflect.Type {
	var fs []reflect.StructField
	if t.Xn != "none" || t.Xt != nil {
		f := reflect.StructField{Name: "XMLName", Type: reflect.TypeFor[x.Name]()}
		if t.Xt != nil {
			f.Tag = reflect.StructTag(`xml:` + strconv.Quote(*t.Xt))
		} else if t.Xn == "tag" {
			f.Tag = reflect.StructTag(`xml:` + strconv.Quote(nsTag(t.S, t.P, t.N)))
		}
		fs = append(fs, f)
	}
	for i := 0; i < len(t.F); {
		if t.F[i].Eb == 0 {
			fs = append(fs, reflect.StructField{Name: fieldName(i), Type: t.F[i].rtype(), Tag: reflect.StructTag(`xml:` + strconv.Quote(t.F[i].tag()))})
			i++
			continue
		}
		eb, p := t.F[i].Eb, t.F[i].Ebp
		var in []reflect.StructField
		for ; i < len(t.F) && t.F[i].Eb == eb; i++ {
			in = append(in, reflect.StructField{Name: fieldName(i), Type: t.F[i].rtype(), Tag: reflect.StructTag(`xml:` + strconv.Quote(t.F[i].tag()))})
		}
		et := reflect.StructOf(in)
		if p {
			et = reflect.PointerTo(et)
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("E%d", eb), Type: et, Anonymous: true})
	}
	return reflect.StructOf(fs)
}

// place returns the field i of the struct sv, or false when it is in an embedded
// pointer that is nil (and make is false)
func (t *tgType) place(sv reflect.Value, i int, make bool) (reflect.Value, bool) {
	if t.F[i].Eb != 0 {
		sv = sv.FieldByName(fmt.Sprintf("E%d", t.F[i].Eb))
		if t.F[i].Ebp {
			if sv.IsNil() {
				if !make {
					return reflect.Value{}, false
				}
				sv.Set(reflect.New(sv.Type().Elem()))
			}
			sv = sv.Elem()
		}
	}
	return sv.FieldByName(fieldName(i)), true
}

func (f *tgField) setItem(v reflect.Value, it tgItem) {
	if f.Ptr {
		v.Set(reflect.New(v.Type().Elem()))
		v = v.Elem()
	}
	switch f.K {
	case "struct":
		f.T.set(v, it.St)
	case "attr":
		v.Set(reflect.ValueOf(x.Attr{Name: x.Name{Space: it.S, Local: it.N}, Value: it.C.text()}))
	default:
		s := it.C.text()
		switch v.Kind() {
		case reflect.String:
			v.SetString(s)
		case reflect.Slice:
			v.SetBytes([]byte(s))
		case reflect.Bool:
			v.SetBool(s == "true")
		case reflect.Float32, reflect.Float64:
			n, _ := strconv.ParseFloat(s, 64)
			v.SetFloat(n)
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			n, _ := strconv.ParseInt(s, 10, 64)
			v.SetInt(n)
		default:
			n, _ := strconv.ParseUint(s, 10, 64)
			v.SetUint(n)
		}
	}
}

func (t *tgType) set(sv reflect.Value, val *tgVal) {
	if t.Xn != "none" && val.Nm.N != "" {
		sv.FieldByName("XMLName").Set(reflect.ValueOf(x.Name{Space: val.Nm.S, Local: val.Nm.N}))
	}
	for i := range t.F {
		f, y := &t.F[i], &val.V[i]
		if y.Off {
			continue
		}
		fv, _ := t.place(sv, i, true)
		if f.Sl {
			for _, it := range y.L {
				fv.Set(reflect.Append(fv, reflect.Zero(fv.Type().Elem())))
				f.setItem(fv.Index(fv.Len()-1), it)
			}
		} else if len(y.L) > 0 {
			f.setItem(fv, y.L[0])
		}
	}
}

func (f *tgField) getItem(v reflect.Value) tgItem {
	if f.Ptr {
		if v.IsNil() {
			return tgItem{S: "nil", C: cps{}}
		}
		v = v.Elem()
	}
	it := tgItem{C: cps{}}
	switch f.K {
	case "struct":
		it.St = f.T.get(v)
	case "attr":
		a := v.Interface().(x.Attr)
		it.S, it.N, it.C = a.Name.Space, a.Name.Local, codesOf(a.Value)
	default:
		switch v.Kind() {
		case reflect.String:
			it.C = codesOf(v.String())
		case reflect.Slice:
			it.C = codesOf(string(v.Bytes()))
		case reflect.Bool:
			it.C = codesOf(strconv.FormatBool(v.Bool()))
		case reflect.Float32:
			it.C = codesOf(strconv.FormatFloat(v.Float(), 'g', -1, 32))
		case reflect.Float64:
			it.C = codesOf(strconv.FormatFloat(v.Float(), 'g', -1, 64))
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			it.C = codesOf(strconv.FormatInt(v.Int(), 10))
		default:
			it.C = codesOf(strconv.FormatUint(v.Uint(), 10))
		}
	}
	return it
}

func (t *tgType) get(sv reflect.Value) *tgVal {
	val := &tgVal{V: make([]tgFV, len(t.F))}
	if t.Xn != "none" {
		n := sv.FieldByName("XMLName").Interface().(x.Name)
		val.Nm = tgName{n.Space, n.Local}
	}
	for i := range t.F {
		f, y := &t.F[i], &val.V[i]
		y.L = []tgItem{}
		fv, ok := t.place(sv, i, false)
		if !ok {
			fv = reflect.Zero(f.rtype())
			y.Off = true
		}
		if f.Sl {
			for j := 0; j < fv.Len(); j++ {
				it := f.getItem(fv.Index(j))
				if f.K == "attr" && (it.S == xmlnsURI || it.S == "xmlns" || it.S == "" && it.N == "xmlns") {
					continue // declarations are representation
				}
				y.L = append(y.L, it)
			}
		} else if f.Ptr && fv.IsNil() {
			y.Nil = true
		} else {
			y.L = append(y.L, f.getItem(fv))
		}
	}
	return val
}

// ------------------------------------------------------------------- documents
func tgTree(n *rnode) *tgEl {
	e := &tgEl{S: n.S, N: n.N, A: []tgItem{}, I: []tgCont{}, Raw: codesOf(n.inner)}
	for _, a := range n.A {
		e.A = append(e.A, tgItem{S: a.S, N: a.N, C: codesOf(a.V)})
	}
	for _, c := range n.seq {
		switch {
		case c.n != nil:
			e.I = append(e.I, tgCont{T: "e", C: cps{}, E: tgTree(c.n)})
		case c.comment:
			e.I = append(e.I, tgCont{T: "c", C: codesOf(c.t)})
		case c.t == "":
		case len(e.I) > 0 && e.I[len(e.I)-1].T == "t":
			l := &e.I[len(e.I)-1]
			l.C = append(l.C, codesOf(c.t)...)
		default:
			e.I = append(e.I, tgCont{T: "t", C: codesOf(c.t)})
		}
	}
	return e
}

var noEl = &tgEl{A: []tgItem{}, I: []tgCont{}, Raw: cps{}}

func elOf(s string) (*tgEl, string) {
	d, err := refParse(s)
	if err != nil {
		return noEl, errStr(err)
	}
	if d.NSErr != "" {
		return noEl, d.NSErr
	}
	return tgTree(d.Root), ""
}

// tgWrite writes a value and reads it back
func tgWrite(id string, t *tgType, v *tgVal, start tgStart, ind int) (rec tgRec) {
	rec = tgRec{ID: id, Op: "m", T: t, X: v, Start: start, Ind: ind > 0, El: noEl, Back: v}
	desc, _ := json.Marshal([]any{t, v, start, ind})
	rec.Pan = guard(func() string { return string(desc) }, func() {
		tgWhich = crc32.ChecksumIEEE(desc)
		rt := t.rtype()
		rec.Go = cut(rt.String(), 1200)
		rv := reflect.New(rt)
		t.set(rv.Elem(), v)
		var b bytes.Buffer
		var err error
		val := rv.Interface()
		if ind%2 == 1 {
			val = rv.Elem().Interface() // not addressable
		}
		indent := []string{"", "  ", "\t", " "}[ind]
		var st x.StartElement
		if start.Use {
			st = x.StartElement{Name: x.Name{Space: start.S, Local: start.N}}
			for _, a := range start.A {
				st.Attr = append(st.Attr, x.Attr{Name: x.Name{Space: a.S, Local: a.N}, Value: a.C.text()})
			}
			e := x.NewEncoder(&b)
			e.Indent("", indent)
			if err = e.EncodeElement(val, st); err == nil {
				err = e.Close()
			}
		} else {
			var o []byte
			switch {
			case ind > 0:
				o, err = x.MarshalIndent(val, "", indent)
			case len(v.V)%2 == 0:
				o, err = x.Marshal(val)
			default:
				e := x.AcquireEncoder(&b)
				err = e.Encode(val)
				x.ReleaseEncoder(e)
			}
			b.Write(o)
		}
		rec.Err = errStr(err)
		rec.Txt = cut(b.String(), 1500)
		out := b.String()
		if err != nil {
			return
		}
		rec.El, rec.WF = elOf(b.String())
		nv := reflect.New(rt)
		rec.Rerr = errStr(tgInto(t, out, nv.Interface()))
		rec.Back = t.get(nv.Elem())
		if k := wideFor(id); k > 1 {
			wv := reflect.New(rt)
			t.set(wv.Elem(), v.wide(k))
			var wb bytes.Buffer
			e := x.NewEncoder(&wb)
			e.Indent("", indent)
			if start.Use {
				for i := range st.Attr {
					st.Attr[i].Value = wideText(st.Attr[i].Value, k)
				}
				err = e.EncodeElement(wv.Interface(), st)
			} else {
				err = e.Encode(wv.Interface())
			}
			if err == nil {
				err = e.Close()
			}
			nw := reflect.New(rt)
			switch {
			case err != nil:
				rec.Wide = fmt.Sprintf("%d times: not written: %v", k, err)
			case wb.String() != wideText(rec.Txt, k) && rec.Txt == out:
				rec.Wide = fmt.Sprintf("%d times: something else is written", k)
			default:
				err = x.Unmarshal(wb.Bytes(), nw.Interface())
				rec.Wide = sameWide(k, err, t.get(nw.Elem()), rec.Rerr, rec.Back)
			}
		}
	})
	return
}

// the letter that is written many times
const tgWide = 'ж'

func wideText(s string, k int) string {
	return strings.ReplaceAll(s, string(tgWide), strings.Repeat(string(tgWide), k))
}

// wideFor: how many times, for a record
func wideFor(id string) int {
	i := strings.LastIndexByte(id, ':')
	n, _ := strconv.Atoi(id[i+1:])
	if n/2%2 == 0 {
		return 1
	}
	return wideLens[n/4%(len(wideLens)-5)]
}

func (v *tgVal) wide(k int) *tgVal {
	o := &tgVal{Nm: v.Nm, V: make([]tgFV, len(v.V))}
	for i, y := range v.V {
		o.V[i] = tgFV{Nil: y.Nil, Off: y.Off, L: []tgItem{}}
		for _, it := range y.L {
			it.C = wideCodes(it.C, tgWide, k)
			if it.St != nil {
				it.St = it.St.wide(k)
			}
			o.V[i].L = append(o.V[i].L, it)
		}
	}
	return o
}

func sameWide(k int, err error, got *tgVal, rerr string, back *tgVal) string {
	if (err == nil) != (rerr == "") {
		return fmt.Sprintf("%d times: %v instead of %q", k, err, rerr)
	}
	if rerr != "" {
		return ""
	}
	a, _ := json.Marshal(got)
	b, _ := json.Marshal(back.wide(k))
	if !bytes.Equal(a, b) {
		return fmt.Sprintf("%d times: something else is read", k)
	}
	return ""
}

type rawSource struct{ d *x.Decoder }

func (r rawSource) Token() (x.Token, error) { return r.d.RawToken() }

func (t *tgType) keepsMarkup() bool {
	for _, f := range t.F {
		if f.M == "inner" || f.K == "struct" && f.T.keepsMarkup() {
			return true
		}
	}
	return false
}

// tgInto reads a document into p in one of the ways there are to do it
func tgInto(t *tgType, doc string, p any) error {
	way := tgWhich / 16 % 6
	switch {
	case way == 1:
		return x.NewDecoder(strings.NewReader(doc)).Decode(p)
	case way == 2:
		return x.NewDecoder(iotest.OneByteReader(strings.NewReader(doc))).Decode(p)
	case way == 3 && !t.keepsMarkup(): // a source of tokens has no markup
		return x.NewTokenDecoder(rawSource{x.NewDecoder(strings.NewReader(doc))}).Decode(p)
	case way == 4:
		return x.NewTokenDecoder(x.NewDecoder(strings.NewReader(doc))).Decode(p)
	case way == 5 && !strings.HasPrefix(doc, "<?") && !strings.HasPrefix(doc, "<!"): // inside of another element
		d := x.NewDecoder(strings.NewReader("<o><p/>" + doc + "<q/></o>"))
		for i := 0; i < 3; i++ {
			if _, err := d.Token(); err != nil {
				return fmt.Errorf("before the element: %w", err)
			}
		}
		tok, err := d.Token()
		for err == nil {
			if st, ok := tok.(x.StartElement); ok {
				if err := d.DecodeElement(p, &st); err != nil {
					return err
				}
				if tok, err = d.Token(); err == nil {
					if q, ok := tok.(x.StartElement); !ok || q.Name.Local != "q" {
						if c, ok := tok.(x.CharData); !ok || strings.TrimSpace(string(c)) != "" {
							return fmt.Errorf("what follows the element is %T %v", tok, tok)
						}
					}
				}
				return err
			}
			tok, err = d.Token()
		}
		return err
	}
	return x.Unmarshal([]byte(doc), p)
}

// tgRead reads a document into a value
func tgRead(id string, t *tgType, v *tgVal, doc string) (rec tgRec, ok bool) {
	rec = tgRec{ID: id, Op: "u", T: t, X: v, Start: tgStart{A: []tgAtt{}}, Back: v, Txt: cut(doc, 1500)}
	if rec.El, rec.WF = elOf(doc); rec.WF != "" {
		return rec, false
	}
	desc, _ := json.Marshal([]any{t, v, doc})
	rec.Pan = guard(func() string { return string(desc) }, func() {
		tgWhich = crc32.ChecksumIEEE(desc)
		rt := t.rtype()
		rec.Go = cut(rt.String(), 1200)
		rv := reflect.New(rt)
		t.set(rv.Elem(), v)
		rec.Err = errStr(tgInto(t, doc, rv.Interface()))
		rec.Back = t.get(rv.Elem())
		if k := wideFor(id); k > 1 {
			wv := reflect.New(rt)
			t.set(wv.Elem(), v.wide(k))
			err := x.Unmarshal([]byte(wideText(doc, k)), wv.Interface())
			rec.Wide = sameWide(k, err, t.get(wv.Elem()), rec.Err, rec.Back)
		}
	})
	return rec, true
}

// ------------------------------------------------------------------ generation
var (
	tgNS     = []string{"", "", "", "urn:a", "urn:b", "http://x/a"}
	tgPre    = []string{"", "", "x", "y"}
	tgNumK   = []string{"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "b"}
	tgAllK   = append([]string{"s", "s", "s", "bytes", "tm", "mx"}, tgNumK...)
	tgNoAtts = tgStart{A: []tgAtt{}}
)

type tgGen struct {
	r    *rand.Rand
	nest bool // more of what keeps the markup
}

func (g *tgGen) any() *tgType {
	t := &tgType{Xn: "var", F: []tgField{{M: "anyattr", K: "attr", Sl: true, Par: []string{}}, {M: "chardata", K: "s", Par: []string{}}}}
	if g.r.Intn(2) == 0 {
		t.F = append(t.F, tgField{M: "any", K: "struct", Sl: true, Par: []string{}, T: &tgType{Xn: "var", F: []tgField{{M: "chardata", K: "bytes", Par: []string{}}}}})
	}
	return t
}

func (g *tgGen) typ(depth int) *tgType {
	r := g.r
	t := &tgType{Xn: []string{"none", "tag", "var"}[r.Intn(3)]}
	if t.Xn == "tag" {
		t.S, t.N = tgNS[r.Intn(len(tgNS))], fmt.Sprintf("n%d", r.Intn(3))
		if t.S != "" {
			t.P = tgPre[r.Intn(len(tgPre))]
		}
	}
	used := map[string]bool{}
	content := r.Intn(5) // at most one kind of text field
	inner := r.Intn(14) == 0
	nf := 1 + r.Intn(5)
	eb := 0
	for i := 0; i < nf; i++ {
		f := tgField{K: tgAllK[r.Intn(len(tgAllK))], Par: []string{}, N: fmt.Sprintf("e%d", r.Intn(8))}
		ns := func() {
			f.S = tgNS[r.Intn(len(tgNS))]
			if f.S != "" {
				f.P = tgPre[r.Intn(len(tgPre))]
			}
		}
		switch m := r.Intn(14); {
		case m < 6:
			f.M = "elem"
			f.Om, f.Ptr, f.Sl = r.Intn(4) == 0, r.Intn(4) == 0, r.Intn(4) == 0
			if f.Sl && f.K == "u8" { // would be []byte
				f.K = "u16"
			}
			ns()
			if depth > 0 && (r.Intn(3) == 0 || g.nest) {
				f.K, f.T = "struct", g.typ(depth-1)
				if f.T.Xn == "tag" { // the names must match
					f.N, f.S, f.P = f.T.N, f.T.S, f.T.P
					f.Bare = !f.Sl && r.Intn(2) == 0
				}
			}
			if !f.Bare {
				for n := r.Intn(6) - 3; n > 0; n-- {
					f.Par = append(f.Par, []string{"p", "q", "r"}[r.Intn(3)])
				}
				if len(f.Par) == 0 && f.K != "struct" && r.Intn(8) == 0 {
					f.S, f.P, f.Bare = "", "", true
				}
			}
		case m < 10:
			f.M, f.N = "attr", fmt.Sprintf("a%d", r.Intn(8))
			f.Om, f.Ptr, f.Sl = r.Intn(4) == 0, r.Intn(4) == 0, r.Intn(10) == 0
			if f.Sl && f.K == "u8" {
				f.K = "u16"
			}
			ns()
			if r.Intn(8) == 0 {
				f.S, f.P, f.Bare = "", "", true
			}
		case m == 10 && content > 0 && !used["chardata"]:
			f.M, f.N = []string{"chardata", "chardata", "cdata"}[r.Intn(3)], ""
			f.Ptr = r.Intn(5) == 0
			if f.K == "mx" {
				f.K = "tm"
			}
			used["chardata"] = true
		case m == 11 && !used["comment"]:
			f.M, f.K, f.N = "comment", []string{"s", "bytes"}[r.Intn(2)], ""
			used["comment"] = true
		case m == 12 && !used["any"] && depth > 0 && r.Intn(2) == 0:
			f.M, f.K, f.T, f.N = "any", "struct", g.any(), ""
			f.Sl, f.Ptr = r.Intn(3) > 0, r.Intn(3) == 0
			used["any"] = true
		case m == 13 && r.Intn(2) == 0 && !used["anyattr"]:
			f.M, f.K, f.Sl, f.N = "anyattr", "attr", true, ""
			used["anyattr"] = true
		case m == 13 && inner && !used["inner"]:
			f.M, f.K, f.N = "inner", []string{"s", "bytes"}[r.Intn(2)], ""
			used["inner"] = true
		default:
			f.M = "dash"
		}
		if eb > 0 && t.F[len(t.F)-1].Eb == eb && r.Intn(2) == 0 || r.Intn(8) == 0 {
			if len(t.F) == 0 || t.F[len(t.F)-1].Eb != eb || eb == 0 {
				eb++
				f.Ebp = r.Intn(2) == 0
			} else {
				f.Ebp = t.F[len(t.F)-1].Ebp
			}
			f.Eb, f.D = eb, 1
		}
		if f.Bare && (f.M == "elem" && f.K != "struct" || f.M == "attr") {
			f.N = fieldName(len(t.F))
		}
		if f.M == "elem" || f.M == "attr" {
			// no two fields of one name, but for an embedded one that is hidden
			key := f.M + " " + f.N
			if used[key] {
				ok := false
				for j := range t.F {
					o := &t.F[j]
					if o.M == f.M && o.N == f.N && (o.S != "" && f.S != "" && o.S != f.S || o.D != f.D && o.S == f.S && len(o.Par)+len(f.Par) == 0) {
						ok = r.Intn(2) == 0
					}
				}
				n := 0
				for j := range t.F {
					if t.F[j].M == f.M && t.F[j].N == f.N {
						n++
					}
				}
				if !ok || n > 1 {
					continue
				}
			}
			used[key] = true
		}
		t.F = append(t.F, f)
	}
	if g.nest && !used["inner"] && r.Intn(4) > 0 {
		used["inner"] = true
		t.F = append(t.F, tgField{M: "inner", K: []string{"s", "bytes"}[r.Intn(2)], Par: []string{}})
	}
	if used["inner"] {
		for i := range t.F { // so that nothing else is written with it
			switch f := &t.F[i]; f.M {
			case "elem":
				f.Om, f.Ptr = true, true
				f.Sl, f.Par = false, []string{} // the parents of an empty slice may be written
			case "any":
				f.Sl = true
			case "chardata", "cdata":
				f.K = "s"
			}
		}
	}
	if len(t.F) == 0 {
		t.F = []tgField{{M: "attr", N: "a0", K: "s", Par: []string{}}}
	}
	return t
}

var tgStrs = []string{"", "a", "a b", " a ", "<&>\"'", "]]>", "x\ny", "\t", "ünïcode", "日本", "😀", "1", "true", "a,b", "[x]", "\u00a0", "-", "a-b", "x\ry", "{}", "</e1>", "&amp;", "ж", "жa", "a ж"}
var tgNums = map[string][]string{
	"i8": {"0", "1", "-1", "127", "-128", "42"}, "i16": {"0", "-1", "32767", "-32768", "300"}, "i32": {"0", "7", "2147483647", "-2147483648"},
	"i64": {"0", "9223372036854775807", "-9223372036854775808", "123456789012"}, "u8": {"0", "1", "255", "128"}, "u16": {"0", "65535", "256"},
	"u32": {"0", "4294967295", "65536"}, "u64": {"0", "18446744073709551615", "9"}, "f32": {"0", "1.5", "-0.25", "1e+10", "0.1"},
	"f64": {"0", "1.5", "-2.25", "1e+100", "0.001", "1.23456789012"}, "b": {"true", "false"},
}

func (g *tgGen) scalar(k string) string {
	if l, ok := tgNums[k]; ok {
		return l[g.r.Intn(len(l))]
	}
	return tgStrs[g.r.Intn(len(tgStrs))]
}

var tgRaws = []string{"", "<zz></zz>", "text", "<zz a=\"1\">&lt;<!-- c --></zz> t", "a<zz/>b", "<![CDATA[<]]>", "&#x20;", "\r\n", "ж", "<zz>ж</zz>"}

// val: a value; content fields are left alone when plain
func (g *tgGen) val(t *tgType, plain bool, root bool) *tgVal {
	r := g.r
	v := &tgVal{V: make([]tgFV, len(t.F))}
	if t.Xn == "var" && (root || r.Intn(2) == 0) {
		v.Nm = tgName{tgNS[r.Intn(len(tgNS))], fmt.Sprintf("v%d", r.Intn(3))}
	}
	raw := ""
	hasRaw := false
	for i := range t.F {
		if t.F[i].M == "inner" {
			raw, hasRaw = tgRaws[r.Intn(len(tgRaws))], true
		}
	}
	off := map[int]bool{}
	for i := range t.F {
		f, y := &t.F[i], &v.V[i]
		y.L = []tgItem{}
		if f.Ebp {
			if _, ok := off[f.Eb]; !ok {
				off[f.Eb] = r.Intn(3) == 0
			}
			y.Off = off[f.Eb]
		}
		content := f.M == "chardata" || f.M == "cdata" || f.M == "comment" || f.M == "inner"
		zero := y.Off || plain && content || hasRaw && f.M != "inner" && f.M != "attr" || f.M == "dash"
		n := 1
		if f.Sl && f.M == "attr" {
			n = r.Intn(2)
		} else if f.Sl {
			n = r.Intn(4)
		} else if f.Ptr && r.Intn(3) == 0 {
			n = 0
		}
		if zero && (f.Sl || f.Ptr) {
			n = 0
		}
		y.Nil = f.Ptr && !f.Sl && n == 0
		seen := map[tgName]bool{}
		for ; n > 0; n-- {
			it := tgItem{C: cps{}}
			switch {
			case f.K == "struct" && zero:
				it.St = zeroVal(f.T)
			case f.K == "struct":
				it.St = g.val(f.T, plain, f.M == "any")
				if f.M == "elem" {
					it.St.Nm = tgName{}
				} else if it.St.Nm.N == "" {
					it.St.Nm.N = "v9"
				}
			case f.K == "attr":
				it.S, it.N, it.C = tgNS[r.Intn(len(tgNS))], fmt.Sprintf("z%d", r.Intn(3)), codesOf(g.scalar("s"))
				if seen[tgName{it.S, it.N}] {
					continue
				}
				seen[tgName{it.S, it.N}] = true
			case zero:
				it.C = codesOf(zeroText(f.K))
			case f.M == "inner":
				it.C = codesOf(raw)
			case f.M == "comment":
				it.C = codesOf([]string{"", "c", " a comment ", "<x>", "a-", "-b", "&amp;", "a--b", "\x01", "ü", "\n"}[r.Intn(11)])
			default:
				it.C = codesOf(g.scalar(f.K))
			}
			if f.Om && f.Sl && !f.Ptr && f.K != "struct" && it.C.text() == zeroText(f.K) {
				continue // whether omitempty is about the items too is left open
			}
			y.L = append(y.L, it)
		}
	}
	return v
}

func zeroText(k string) string {
	switch {
	case k == "b":
		return "false"
	case tgNums[k] != nil:
		return "0"
	}
	return ""
}

func zeroVal(t *tgType) *tgVal { return t.get(reflect.Zero(t.rtype())) }

var (
	tgBad   = []string{"x", "-", "1 2", "999999999999999999999", "-999999999999999999999", "1.5.2", "maybe", "128", "-129", "256", "-1", "32768", "65536", "4294967296", "2147483648", "-2147483649", "9223372036854775808", "18446744073709551616"}
	tgNoise = []string{"<!-- c -->", "<?pi?>", "\n  ", "t", "&lt;", "<![CDATA[<c>]]>", "<zz/>", "<zz a='1'>t<e1>u</e1></zz>", " ", "ж", "<zz>ж</zz>", "<!--ж-->", "<zz a='ж'/>"}
)

// doc: a document that an instance of t might be read from
func (g *tgGen) el(t *tgType, s, n string, def string, b *strings.Builder) {
	r := g.r
	var at strings.Builder
	tag := n
	switch {
	case s != "" && r.Intn(2) == 0:
		tag = "n1:" + n
		fmt.Fprintf(&at, ` xmlns:n1="%s"`, s)
	case s != def || r.Intn(6) == 0:
		fmt.Fprintf(&at, ` xmlns="%s"`, s)
		def = s
	}
	seen := map[string]bool{}
	decl := map[string]string{}
	attr := func(s, n, v string) {
		if seen[s+" "+n] {
			return
		}
		seen[s+" "+n] = true
		q := n
		if s != "" {
			p := decl[s]
			if p == "" {
				p = fmt.Sprintf("m%d", len(decl))
				decl[s] = p
				fmt.Fprintf(&at, ` xmlns:%s="%s"`, p, s)
			}
			q = p + ":" + n
		}
		fmt.Fprintf(&at, ` %s="%s"`, q, escText(v))
	}
	text := func(k string) string {
		if r.Intn(25) == 0 && k != "s" && k != "bytes" {
			return tgBad[r.Intn(len(tgBad))]
		}
		s := g.scalar(k)
		switch {
		case k == "tm":
			return "[" + s + "]"
		case k == "mx":
			return "{" + s + "}"
		case k == "b" && r.Intn(3) == 0:
			s = []string{"1", "0"}[r.Intn(2)]
		case k == "s" || k == "bytes":
			if g.nest && r.Intn(3) == 0 {
				return string(tgWide)
			}
			return s
		case r.Intn(8) == 0:
			return ""
		}
		if r.Intn(5) == 0 {
			s = " " + s + "\n"
		}
		return s
	}
	if t != nil {
		for i := range t.F {
			f := &t.F[i]
			if f.M == "attr" && r.Intn(3) > 0 {
				s := f.S
				if r.Intn(8) == 0 {
					s = tgNS[r.Intn(len(tgNS))]
				}
				attr(s, f.N, text(f.K))
			}
		}
	}
	for r.Intn(4) == 0 {
		attr(tgNS[r.Intn(len(tgNS))], fmt.Sprintf("z%d", r.Intn(3)), g.scalar("s"))
	}
	fmt.Fprintf(b, "<%s%s>", tag, at.String())
	if t != nil {
		noise := func() {
			if r.Intn(4) == 0 {
				b.WriteString(tgNoise[r.Intn(len(tgNoise))])
			}
		}
		num := false
		for i := range t.F {
			if f := &t.F[i]; f.M == "chardata" || f.M == "cdata" {
				num = tgNums[f.K] != nil || f.K == "tm" // noise would be part of it
				if r.Intn(3) > 0 {
					b.WriteString(escText(text(f.K)))
				}
			}
		}
		for k := r.Intn(2 + 2*len(t.F)); k > 0; k-- {
			if !num {
				noise()
			}
			f := &t.F[r.Intn(len(t.F))]
			switch f.M {
			case "elem":
				par := f.Par
				if len(par) > 0 && r.Intn(8) == 0 {
					par = par[:len(par)-1]
				}
				in := def
				for _, p := range par {
					if r.Intn(6) == 0 {
						in = tgNS[r.Intn(len(tgNS))]
						fmt.Fprintf(b, `<%s xmlns="%s">`, p, in)
					} else {
						fmt.Fprintf(b, "<%s>", p)
					}
					if r.Intn(5) == 0 {
						b.WriteString(tgNoise[r.Intn(len(tgNoise))])
					}
				}
				for again := true; again; again = r.Intn(4) == 0 {
					s := f.S
					if s == "" || r.Intn(10) == 0 {
						s = tgNS[r.Intn(len(tgNS))]
					}
					if f.K == "struct" {
						if f.T.Xn == "tag" && f.T.S != "" && r.Intn(10) > 0 {
							s = f.T.S
						}
						g.el(f.T, s, f.N, in, b)
					} else {
						var c strings.Builder
						g.el(nil, s, f.N, in, &c)
						e := c.String()
						j := strings.LastIndex(e, "</")
						b.WriteString(e[:j] + escText(text(f.K)))
						if r.Intn(8) == 0 {
							b.WriteString([]string{"<!-- c -->", "<zz>9</zz>", "<?pi?>"}[r.Intn(3)])
						}
						b.WriteString(e[j:])
					}
				}
				for j := len(par) - 1; j >= 0; j-- {
					fmt.Fprintf(b, "</%s>", par[j])
				}
			case "any":
				g.el(f.T, tgNS[r.Intn(len(tgNS))], fmt.Sprintf("v%d", r.Intn(3)), def, b)
			case "comment":
				b.WriteString("<!--" + []string{"c", " x ", "a-b", ""}[r.Intn(4)] + "-->")
			case "inner":
				b.WriteString(tgRaws[r.Intn(len(tgRaws))])
			}
		}
		if !num {
			noise()
		}
	}
	fmt.Fprintf(b, "</%s>", tag)
}

func escText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "\r", "&#13;", "\n", "&#10;", "\t", "&#9;").Replace(s)
}

func tagsRecord(args []string) error {
	w, err := newRecWriter(args[0])
	if err != nil {
		return err
	}
	part, err := strconv.Atoi(args[1])
	if err != nil {
		return err
	}
	r := newRng(1900 + int64(part))
	g := &tgGen{r: r}
	for i := 0; i < scale(6000, 15000); i++ {
		g.nest = i%8 == 3
		t := g.typ(r.Intn(3))
		if i%2 == 0 {
			st := tgNoAtts
			if t.Xn == "none" || r.Intn(5) == 0 {
				st = tgStart{Use: true, S: tgNS[r.Intn(len(tgNS))], N: "root", A: []tgAtt{}}
				if t.Xn == "tag" {
					st.N = t.N
					st.S = t.S
				}
				n := r.Intn(3)
				for i := range t.F {
					if t.F[i].M == "anyattr" {
						n = 0 // they would be read into it
					}
				}
				for k := n; k > 0; k-- {
					st.A = append(st.A, tgAtt{[]string{"", "urn:s"}[k%2], fmt.Sprintf("s%d", k), "s", codesOf(g.scalar("s"))})
				}
			}
			ind := 0
			if r.Intn(3) == 0 {
				ind = 1 + r.Intn(3)
			}
			w.put(tgWrite(fmt.Sprintf("write:%d", i), t, g.val(t, false, true), st, ind))
			continue
		}
		v := zeroVal(t)
		if r.Intn(2) == 0 {
			v = g.val(t, true, false)
		}
		var b strings.Builder
		n, s := "root", tgNS[r.Intn(len(tgNS))]
		if t.Xn == "tag" {
			n = t.N
			if t.S != "" {
				s = t.S
			}
		}
		if r.Intn(25) == 0 {
			n = "other"
		} else if r.Intn(25) == 0 {
			s = "urn:other"
		}
		g.el(t, s, n, "", &b)
		if rec, ok := tgRead(fmt.Sprintf("read:%d", i), t, v, b.String()); ok {
			w.put(rec)
		}
	}
	return w.close()
}

func (it tgItem) MarshalJSON() ([]byte, error) {
	type plain tgItem
	if it.C == nil {
		it.C = cps{}
	}
	return json.Marshal(plain(it))
}

// render writes an element as the specification describes it, in one of several ways
func (e *tgEl) render(b *strings.Builder, def string, how int) {
	tag, n := e.N, 0
	var at strings.Builder
	switch {
	case e.S == def && how%3 != 1:
	case e.S == "" || how%2 == 0:
		fmt.Fprintf(&at, ` xmlns="%s"`, e.S)
		def = e.S
	default:
		tag = "q:" + e.N
		fmt.Fprintf(&at, ` xmlns:q="%s"`, e.S)
	}
	for _, a := range e.A {
		q := a.N
		if a.S != "" {
			n++
			q = fmt.Sprintf("m%d:%s", n, a.N)
			fmt.Fprintf(&at, ` xmlns:m%d="%s"`, n, a.S)
		}
		fmt.Fprintf(&at, ` %s="%s"`, q, escText(a.C.text()))
	}
	if len(e.I) == 0 && how%2 == 0 {
		fmt.Fprintf(b, "<%s%s/>", tag, at.String())
		return
	}
	fmt.Fprintf(b, "<%s%s>", tag, at.String())
	for _, c := range e.I {
		switch c.T {
		case "t":
			b.WriteString(escText(c.C.text()))
		case "c":
			b.WriteString("<!--" + c.C.text() + "-->")
		default:
			c.E.render(b, def, how+1)
		}
	}
	fmt.Fprintf(b, "</%s>", tag)
}

// tagsReplay: types, values and documents of the model
func tagsReplay(args []string) error {
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	i := 0
	err = readCases(args[0], func(raw []byte) error {
		var c struct {
			T     *tgType `json:"t"`
			X     *tgVal  `json:"x"`
			Start tgStart `json:"start"`
			Prior *tgVal  `json:"prior"`
			El    *tgEl   `json:"el"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		i++
		w.put(tgWrite(fmt.Sprintf("model:%d", i), c.T, c.X, c.Start, max(0, i%6-2)))
		var b strings.Builder
		c.El.render(&b, "", i)
		rec, ok := tgRead(fmt.Sprintf("model-read:%d", i), c.T, c.Prior, b.String())
		if !ok {
			// fields in conflict: two attributes of one name
			rec, _ = tgRead(rec.ID, c.T, c.Prior, "<root/>")
		}
		w.put(rec)
		return nil
	})
	if err != nil {
		return err
	}
	return w.close()
}

func init() {
	register("tags-record", tagsRecord)
	register("tags-replay", tagsReplay)
}
