package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"

	x "github.com/Eyevinn/dash-mpd/xml"
)

// Values of all shapes (spec/Shapes.tla), written and read again.

type (
	ShName  string
	ShPlain struct {
		A string `xml:"A,attr"`
		C string `xml:",chardata"`
	}
	ShTagged struct {
		XMLName x.Name `xml:"urn:s tagged"`
		A       string `xml:"A,attr"`
		C       string `xml:",chardata"`
	}
	ShVar struct {
		XMLName x.Name
		A       string `xml:"A,attr"`
		C       string `xml:",chardata"`
	}
	ShBox[T any] struct {
		A string `xml:"A,attr"`
		C string `xml:",chardata"`
		_ []T
	}
	ShTM string
	ShTP string
	ShMX string
	ShMP string
	// generic ones
	ShTB[T any] string
	ShMB[T any] string
)

func between(b string, l, r byte) (string, error) {
	if len(b) < 2 || b[0] != l || b[len(b)-1] != r {
		return "", fmt.Errorf("not the form of the type: %q", b)
	}
	return b[1 : len(b)-1], nil
}

func (t ShTM) MarshalText() ([]byte, error) { return []byte("[" + string(t) + "]"), nil }
func (t *ShTM) UnmarshalText(b []byte) error {
	s, err := between(string(b), '[', ']')
	*t = ShTM(s)
	return err
}
func (t *ShTP) MarshalText() ([]byte, error) {
	if t == nil {
		return nil, nil
	}
	return []byte("(" + string(*t) + ")"), nil
}
func (t *ShTP) UnmarshalText(b []byte) error {
	s, err := between(string(b), '(', ')')
	*t = ShTP(s)
	return err
}
func (t ShMX) MarshalXML(e *x.Encoder, start x.StartElement) error {
	return e.EncodeElement("{"+string(t)+"}", start)
}
func (t ShMX) MarshalXMLAttr(name x.Name) (x.Attr, error) {
	return x.Attr{Name: name, Value: "{" + string(t) + "}"}, nil
}
func (t *ShMX) UnmarshalXML(d *x.Decoder, start x.StartElement) error {
	var s string
	err := d.DecodeElement(&s, &start)
	if err == nil {
		s, err = between(s, '{', '}')
	}
	*t = ShMX(s)
	return err
}
func (t *ShMX) UnmarshalXMLAttr(a x.Attr) error {
	s, err := between(a.Value, '{', '}')
	*t = ShMX(s)
	return err
}
func (t *ShMP) MarshalXML(e *x.Encoder, start x.StartElement) error {
	return e.EncodeElement("<"+string(*t)+">", start)
}
func (t *ShMP) MarshalXMLAttr(name x.Name) (x.Attr, error) {
	if t == nil {
		return x.Attr{}, nil
	}
	return x.Attr{Name: name, Value: "<" + string(*t) + ">"}, nil
}
func (t *ShMP) UnmarshalXML(d *x.Decoder, start x.StartElement) error {
	var s string
	err := d.DecodeElement(&s, &start)
	if err == nil {
		s, err = between(s, '<', '>')
	}
	*t = ShMP(s)
	return err
}
func (t *ShMP) UnmarshalXMLAttr(a x.Attr) error {
	s, err := between(a.Value, '<', '>')
	*t = ShMP(s)
	return err
}

func (t ShTB[T]) MarshalText() ([]byte, error) { return ShTM(t).MarshalText() }
func (t *ShTB[T]) UnmarshalText(b []byte) error {
	return (*ShTM)(t).UnmarshalText(b)
}
func (t ShMB[T]) MarshalXML(e *x.Encoder, start x.StartElement) error {
	return ShMX(t).MarshalXML(e, start)
}
func (t ShMB[T]) MarshalXMLAttr(name x.Name) (x.Attr, error) { return ShMX(t).MarshalXMLAttr(name) }
func (t *ShMB[T]) UnmarshalXML(d *x.Decoder, start x.StartElement) error {
	return (*ShMX)(t).UnmarshalXML(d, start)
}
func (t *ShMB[T]) UnmarshalXMLAttr(a x.Attr) error { return (*ShMX)(t).UnmarshalXMLAttr(a) }

// methods that fail, and that do not keep to their element
type (
	ShTE string
	ShTU string
	ShME string
	ShUX string
	ShMO string
	ShMM string
	ShUL string
	ShUA string

	ShEmb  struct{ ShTagged }
	ShEmbX struct {
		hidden int
		ShTagged
	}
	ShEmbN struct {
		Other x.Name `xml:"-"`
		ShTagged
	}
)

var errMethod = errors.New("the method fails")

func (t ShTE) MarshalText() ([]byte, error)  { return nil, errMethod }
func (t *ShTE) UnmarshalText(b []byte) error { return errMethod }
func (t ShTU) MarshalText() ([]byte, error)  { return ShTM(t).MarshalText() }
func (t *ShTU) UnmarshalText(b []byte) error { return errMethod }
func (t ShME) MarshalXML(e *x.Encoder, start x.StartElement) error {
	return errMethod
}
func (t ShME) MarshalXMLAttr(name x.Name) (x.Attr, error) { return x.Attr{}, errMethod }
func (t ShUX) MarshalXML(e *x.Encoder, start x.StartElement) error {
	return ShMX(t).MarshalXML(e, start)
}
func (t ShUX) MarshalXMLAttr(name x.Name) (x.Attr, error) { return ShMX(t).MarshalXMLAttr(name) }
func (t *ShUX) UnmarshalXML(d *x.Decoder, start x.StartElement) error {
	if err := d.Skip(); err != nil {
		return err
	}
	return errMethod
}
func (t *ShUX) UnmarshalXMLAttr(a x.Attr) error { return errMethod }
func (t ShMO) MarshalXML(e *x.Encoder, start x.StartElement) error {
	return e.EncodeToken(start)
}
func (t ShMM) MarshalXML(e *x.Encoder, start x.StartElement) error {
	if err := e.EncodeElement(string(t), start); err != nil {
		return err
	}
	return e.EncodeToken(x.EndElement{Name: x.Name{Local: "h"}})
}
func (t ShUL) MarshalXML(e *x.Encoder, start x.StartElement) error {
	return ShMX(t).MarshalXML(e, start)
}
func (t *ShUL) UnmarshalXML(d *x.Decoder, start x.StartElement) error { return nil }
func (t ShUA) MarshalXML(e *x.Encoder, start x.StartElement) error {
	return ShMX(t).MarshalXML(e, start)
}
func (t *ShUA) UnmarshalXML(d *x.Decoder, start x.StartElement) error {
	var s string
	for {
		tok, err := d.Token()
		if err == io.EOF {
			s, err = between(s, '{', '}')
			*t = ShUA(s)
			return err
		}
		if err != nil {
			return err
		}
		if c, ok := tok.(x.CharData); ok {
			s += string(c)
		}
	}
}

type (
	ShBytes  []byte
	ShBytes2 [2]byte
)

var shKinds = map[string]reflect.Type{
	"string": reflect.TypeFor[string](), "int": reflect.TypeFor[int](), "bool": reflect.TypeFor[bool](), "float64": reflect.TypeFor[float64](),
	"named": reflect.TypeFor[ShName](), "tm": reflect.TypeFor[ShTM](), "tp": reflect.TypeFor[ShTP](), "mx": reflect.TypeFor[ShMX](), "mp": reflect.TypeFor[ShMP](),
	"bytes": reflect.TypeFor[[]byte](), "nbytes": reflect.TypeFor[ShBytes](), "abytes": reflect.TypeFor[ShBytes2](),
	"tb": reflect.TypeFor[ShTB[int]](), "mb": reflect.TypeFor[ShMB[ShBox[*ShPlain]]](),
	"plain": reflect.TypeFor[ShPlain](), "tagged": reflect.TypeFor[ShTagged](), "var": reflect.TypeFor[ShVar](),
	"box": reflect.TypeFor[ShBox[int]](), "box2": reflect.TypeFor[ShBox[ShBox[*ShPlain]]](),
	"anon": reflect.TypeOf(struct {
		A string `xml:"A,attr"`
		C string `xml:",chardata"`
	}{}),
	"anonmx": reflect.TypeFor[struct{ ShMX }](),
	"tmerr":  reflect.TypeFor[ShTE](), "tuerr": reflect.TypeFor[ShTU](), "mxerr": reflect.TypeFor[ShME](), "uxerr": reflect.TypeFor[ShUX](),
	"mxopen": reflect.TypeFor[ShMO](), "mxend": reflect.TypeFor[ShMM](), "uxless": reflect.TypeFor[ShUL](), "uxall": reflect.TypeFor[ShUA](),
	"emb": reflect.TypeFor[ShEmb](), "embx": reflect.TypeFor[ShEmbX](), "embn": reflect.TypeFor[ShEmbN](),
	"chan": reflect.TypeFor[chan int](), "func": reflect.TypeFor[func()](), "map": reflect.TypeFor[map[string]string](),
}

type shWrap struct {
	W string `json:"w"`
	N int    `json:"n"`
}

type shEl struct {
	S string `json:"s"`
	N string `json:"n"`
	C cps    `json:"c"`
	A cps    `json:"a"`
}

type shRec struct {
	ID   string   `json:"id"`
	Op   string   `json:"op"`
	Ws   []shWrap `json:"ws"`
	K    string   `json:"k"`
	Pos  string   `json:"pos"`
	C    cps      `json:"c"`
	Err  string   `json:"err"`
	WF   string   `json:"wf"`
	Els  []shEl   `json:"els"`
	Rerr string   `json:"rerr"`
	Back []cps    `json:"back"`
	Own  bool     `json:"own"`
	Pan  string   `json:"pan"`
	Txt  string   `json:"txt"`
}

func shType(ws []shWrap, k string) reflect.Type {
	if len(ws) == 0 {
		return shKinds[k]
	}
	t := shType(ws[1:], k)
	switch ws[0].W {
	case "ptr":
		return reflect.PointerTo(t)
	case "slice":
		return reflect.SliceOf(t)
	case "array":
		return reflect.ArrayOf(ws[0].N, t)
	}
	switch ws[0].W {
	case "tmi":
		return reflect.TypeFor[encoding.TextMarshaler]()
	case "mxi":
		return reflect.TypeFor[interface {
			x.Marshaler
			x.MarshalerAttr
		}]()
	}
	return reflect.TypeFor[any]()
}

func shFill(v reflect.Value, ws []shWrap, k, c string) {
	if len(ws) == 0 {
		if k == "abytes" {
			reflect.Copy(v, reflect.ValueOf([]byte(c)))
			return
		}
		switch v.Kind() {
		case reflect.Slice:
			v.SetBytes([]byte(c))
		case reflect.String:
			v.SetString(c)
		case reflect.Int:
			n, _ := strconv.Atoi(c)
			v.SetInt(int64(n))
		case reflect.Bool:
			v.SetBool(true)
		case reflect.Float64:
			n, _ := strconv.ParseFloat(c, 64)
			v.SetFloat(n)
		case reflect.Chan:
			v.Set(reflect.MakeChan(v.Type(), 0))
		case reflect.Map:
			v.Set(reflect.MakeMap(v.Type()))
		case reflect.Struct:
			if k == "anonmx" {
				v.Field(0).SetString(c)
				return
			}
			v.FieldByName("A").SetString("a")
			v.FieldByName("C").SetString(c)
			if k == "var" {
				v.FieldByName("XMLName").Set(reflect.ValueOf(x.Name{Space: "urn:v", Local: "vn"}))
			}
		}
		return
	}
	w := ws[0]
	switch w.W {
	case "ptr":
		if w.N == 1 {
			v.Set(reflect.New(v.Type().Elem()))
			shFill(v.Elem(), ws[1:], k, c)
		}
	case "iface", "tmi", "mxi":
		if w.N == 1 {
			in := reflect.New(shType(ws[1:], k)).Elem()
			shFill(in, ws[1:], k, c)
			v.Set(in)
		}
	default:
		if w.W == "slice" && w.N > 0 {
			v.Set(reflect.MakeSlice(v.Type(), w.N, w.N))
		}
		for i := 0; i < w.N; i++ {
			shFill(v.Index(i), ws[1:], k, c+string(rune('1'+i)))
		}
	}
}

func shTexts(v reflect.Value, out *[]cps) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			shTexts(v.Elem(), out)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Len() > 0 {
				*out = append(*out, codesOf(string(v.Bytes())))
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			shTexts(v.Index(i), out)
		}
	case reflect.Struct:
		if v.Field(0).Type() == shKinds["mx"] {
			v = v.Field(0)
			*out = append(*out, codesOf(v.String()))
			return
		}
		c := v.FieldByName("C").String()
		if v.FieldByName("A").String() != "a" {
			c += " without A"
		}
		switch {
		case v.Type() == shKinds["embn"]:
			if v.FieldByName("Other").Interface().(x.Name) != (x.Name{}) {
				c += " and changed another field"
			}
		case v.Type() == shKinds["tagged"] || v.Type() == shKinds["var"]:
			if v.FieldByName("XMLName").Interface().(x.Name).Local == "" {
				c += " without name"
			}
		}
		*out = append(*out, codesOf(c))
	case reflect.String:
		*out = append(*out, codesOf(v.String()))
	default:
		*out = append(*out, codesOf(fmt.Sprint(v.Interface())))
	}
}

var shTags = map[string]string{"field": `xml:"f"`, "fieldns": `xml:"urn:f f"`, "under": `xml:"p>f"`, "plain": "", "attr": `xml:"f,attr"`, "chardata": `xml:",chardata"`}

func shRun(rec *shRec) {
	desc, _ := json.Marshal(rec)
	rec.Els, rec.Back = []shEl{}, []cps{}
	rec.Pan = guard(func() string { return string(desc) }, func() {
		t := shType(rec.Ws, rec.K)
		tag, held := shTags[rec.Pos]
		if held {
			t = reflect.StructOf([]reflect.StructField{
				{Name: "XMLName", Type: reflect.TypeFor[x.Name](), Tag: `xml:"h"`},
				{Name: "V", Type: t, Tag: reflect.StructTag(tag)},
			})
		}
		v := reflect.New(t)
		in := v.Elem()
		if held {
			in = in.Field(1)
		}
		shFill(in, rec.Ws, rec.K, rec.C.text())
		var out []byte
		var err error
		switch {
		case rec.Pos == "start":
			var b bytes.Buffer
			e := x.NewEncoder(&b)
			if err = e.EncodeElement(v.Interface(), x.StartElement{Name: x.Name{Space: "urn:st", Local: "st"}}); err == nil {
				err = e.Close()
			}
			out = b.Bytes()
		case rec.Pos == "root":
			out, err = x.Marshal(v.Elem().Interface())
		default:
			out, err = x.Marshal(v.Interface())
		}
		rec.Err, rec.Txt, rec.Own = errStr(err), cut(string(out), 500), errors.Is(err, errMethod)
		if err != nil {
			return
		}
		doc := string(out)
		if !held {
			doc = "<h>" + doc + "</h>"
		}
		el, wf := elOf(doc)
		if rec.WF = wf; wf != "" {
			return
		}
		switch rec.Pos {
		case "attr":
			for _, a := range el.A {
				rec.Els = append(rec.Els, shEl{S: a.S, N: a.N, C: a.C, A: cps{}})
			}
		case "chardata":
			for _, c := range el.I {
				rec.Els = append(rec.Els, shEl{C: c.C, A: cps{}})
			}
		default:
			if rec.Pos == "under" && len(el.I) == 1 && el.I[0].T == "e" && el.I[0].E.N == "p" {
				el = el.I[0].E
			}
			for _, c := range el.I {
				if c.T != "e" {
					rec.WF = "text among the elements"
					continue
				}
				one := shEl{S: c.E.S, N: c.E.N, C: cps{}, A: cps{}}
				for _, a := range c.E.A {
					one.A = append(one.A, a.C...)
				}
				for _, d := range c.E.I {
					one.C = append(one.C, d.C...)
				}
				rec.Els = append(rec.Els, one)
			}
		}
		for _, w := range rec.Ws {
			if w.W == "iface" || w.W == "tmi" || w.W == "mxi" || w.W == "array" || w.W == "slice" && rec.Pos == "chardata" {
				return
			}
		}
		if rec.Pos == "start" || (!held && len(rec.Els) != 1) {
			return
		}
		nv := reflect.New(t)
		err = x.Unmarshal(out, nv.Interface())
		rec.Rerr, rec.Own = errStr(err), errors.Is(err, errMethod)
		in = nv.Elem()
		if held {
			in = in.Field(1)
		}
		shTexts(in, &rec.Back)
	})
}

func shapesReplay(args []string) error {
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	n := 0
	err = readCases(args[0], func(raw []byte) error {
		var r shRec
		if err := json.Unmarshal(raw, &r); err != nil {
			return err
		}
		n++
		r.ID, r.Op = fmt.Sprintf("shape:%d", n), "w"
		shRun(&r)
		w.put(r)
		return nil
	})
	if err != nil {
		return err
	}
	var none *ShPlain
	for i, v := range []any{nil, ShPlain{}, none, "", 7, []string{"a"}, map[string]string{}, (**ShPlain)(nil), (*string)(nil), struct{ V *int }{}} {
		for how, read := range []func(v any) error{
			func(v any) error { return x.Unmarshal([]byte("<ShPlain A=\"a\">c</ShPlain>"), v) },
			func(v any) error { return x.NewDecoder(bytes.NewReader([]byte("<a/>"))).Decode(v) },
		} {
			r := shRec{ID: fmt.Sprintf("misuse:%d:%d", i, how), Op: "misuse", Ws: []shWrap{}, C: cps{}, Els: []shEl{}, Back: []cps{}}
			r.Pan = guard(func() string { return r.ID }, func() { r.Err = errStr(read(v)) })
			w.put(r)
		}
	}
	// an encoder is used in a way that cannot mean anything
	el := x.StartElement{Name: x.Name{Local: "a"}}
	for i, f := range []func(e *x.Encoder) error{
		func(e *x.Encoder) error { return e.EncodeElement(7, x.StartElement{}) },
		func(e *x.Encoder) error { return e.EncodeElement(ShPlain{}, x.StartElement{}) },
		func(e *x.Encoder) error {
			return e.EncodeElement(&ShBox[int]{}, x.StartElement{Name: x.Name{Space: "urn:n"}})
		},
		func(e *x.Encoder) error { return e.EncodeToken(nil) },
		func(e *x.Encoder) error { return e.EncodeToken(&x.StartElement{Name: x.Name{Local: "a"}}) },
		func(e *x.Encoder) error { return e.EncodeToken("text") },
		func(e *x.Encoder) error { return e.EncodeToken(x.EndElement{Name: x.Name{Local: "a"}}) },
		func(e *x.Encoder) error { e.EncodeToken(el); return e.Close() },
		func(e *x.Encoder) error {
			e.EncodeToken(el)
			e.EncodeToken(el)
			e.EncodeToken(el.End())
			return e.Close()
		},
		func(e *x.Encoder) error {
			e.EncodeToken(el)
			return e.EncodeToken(x.EndElement{Name: x.Name{Local: "b"}})
		},
		func(e *x.Encoder) error {
			e.EncodeToken(el)
			return e.EncodeToken(x.EndElement{Name: x.Name{Space: "urn:n", Local: "a"}})
		},
		func(e *x.Encoder) error { e.Encode(ShPlain{}); e.Close(); return e.Encode(ShPlain{}) },
		func(e *x.Encoder) error { e.Close(); return e.EncodeElement("", el) },
		func(e *x.Encoder) error {
			e.Close()
			if err := e.EncodeToken(el); err != nil {
				return err
			}
			return e.Flush()
		},
	} {
		r := shRec{ID: fmt.Sprintf("misuse:encoder:%d", i), Op: "misuse", Ws: []shWrap{}, C: cps{}, Els: []shEl{}, Back: []cps{}}
		r.Pan = guard(func() string { return r.ID }, func() { r.Err = errStr(f(x.NewEncoder(&bytes.Buffer{}))) })
		w.put(r)
	}
	for i, f := range []func(e *x.Encoder) error{
		func(e *x.Encoder) error { return e.Close() },
		func(e *x.Encoder) error { e.Close(); return e.Close() },
		func(e *x.Encoder) error { e.EncodeToken(el); e.EncodeToken(el.End()); e.Close(); return e.Close() },
		func(e *x.Encoder) error { e.EncodeToken(el); return e.Flush() },
		func(e *x.Encoder) error { e.EncodeToken(el); return e.EncodeElement(ShPlain{}, el) },
	} {
		r := shRec{ID: fmt.Sprintf("use:encoder:%d", i), Op: "use", Ws: []shWrap{}, C: cps{}, Els: []shEl{}, Back: []cps{}}
		r.Pan = guard(func() string { return r.ID }, func() { r.Err = errStr(f(x.NewEncoder(&bytes.Buffer{}))) })
		w.put(r)
	}
	// how deep values are
	for _, d := range []int{1, 2, 3, 31, 32, 33, 255, 256, 257, 999, 5000, 9999, 10000, 10001, 20000, scale(100000, 1000000)} {
		for how := range 3 {
			r := shRec{ID: fmt.Sprintf("deep:%d:%d", d, how), Op: "deep", Ws: []shWrap{}, C: cps{d}, Els: []shEl{}, Back: []cps{}}
			r.Pan = guard(func() string { return r.ID }, func() { shDeep(&r, d, how) })
			w.put(r)
		}
	}
	return w.close()
}

type shNode struct {
	XMLName x.Name  `xml:"n"`
	One     *shNode `xml:"n"`
	V       string  `xml:",chardata"`
}
type shNodes struct {
	XMLName x.Name     `xml:"n"`
	All     []*shNodes `xml:"n"`
}
type shAny struct {
	XMLName x.Name
	All     []shAny `xml:",any"`
}

// shDeep: a document that is d elements deep, what is read, and whether it is written again
func shDeep(r *shRec, d, how int) {
	doc := strings.Repeat("<n>", d) + strings.Repeat("</n>", d)
	var v any
	got := 0
	switch how {
	case 0:
		n := &shNode{}
		r.Err = errStr(x.Unmarshal([]byte(doc), n))
		for v = n; n != nil; n = n.One {
			got++
		}
	case 1:
		n := &shNodes{}
		r.Err, v = errStr(x.Unmarshal([]byte(doc), n)), n
		for got = 1; len(n.All) == 1; n = n.All[0] {
			got++
		}
	default:
		n := &shAny{}
		r.Err, v = errStr(x.Unmarshal([]byte(doc), n)), n
		for got = 1; len(n.All) == 1; n = &n.All[0] {
			got++
		}
	}
	r.Back = append(r.Back, cps{got})
	if r.Err == "" && d <= 20000 {
		out, err := x.Marshal(v)
		if r.Rerr = errStr(err); err == nil && string(out) != doc {
			r.Rerr = "written as something else"
		}
	}
}

func init() { register("shapes-replay", shapesReplay) }
