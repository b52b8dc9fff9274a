package main

// Random Go values of the library's types, built through reflection, and a
// flat description of such values (to compare what was written with what is
// read back).

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	m "github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

type structGen struct {
	r        *rand.Rand
	g        *docGen // string pool
	pField   float64
	maxDepth int
	budget   int
	n        int
	str      func() string // overrides the strings
}

var (
	tName  = reflect.TypeOf(xml.Name{})
	tAttrs = reflect.TypeOf([]xml.Attr{})
	tExt   = reflect.TypeOf(m.ExtType{})
)

func tagName(f reflect.StructField) (name string, opts []string) {
	t := f.Tag.Get("xml")
	p := strings.Split(t, ",")
	name = p[0]
	if i := strings.LastIndexByte(name, ' '); i >= 0 {
		name = name[i+1:]
	}
	return name, p[1:]
}

func hasOpt(o []string, x string) bool {
	for _, s := range o {
		if s == x {
			return true
		}
	}
	return false
}

func (s *structGen) text(opts []string) string {
	if s.str != nil {
		return s.str()
	}
	return s.g.str(true)
}

var extTexts = []string{"", "text &amp; more", "<a/>", `<e xmlns="urn:e1" v="1"><f>x</f></e>`, `<p:e xmlns:p="urn:e2" p:v="&lt;"/>tail`}

// fill sets v to a random value; elem is the name of the element v is written as
func (s *structGen) fill(v reflect.Value, elem string, depth int, opts []string) {
	r := s.r
	switch v.Kind() {
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		s.fill(v.Elem(), elem, depth, opts)
	case reflect.Slice:
		n := 1 + r.Intn(3)
		if v.Type().Elem().Kind() == reflect.String { // list of words
			for i := 0; i < n; i++ {
				e := reflect.New(v.Type().Elem()).Elem()
				e.SetString("w" + strconv.Itoa(r.Intn(100)))
				v.Set(reflect.Append(v, e))
			}
			return
		}
		for i := 0; i < n; i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			s.fill(e, elem, depth, opts)
			v.Set(reflect.Append(v, e))
		}
	case reflect.Struct:
		s.fillStruct(v, elem, depth)
	case reflect.String:
		v.SetString(s.text(opts))
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Int16, reflect.Int8:
		if v.Type() == reflect.TypeOf(m.Duration(0)) {
			v.SetInt(int64(time.Duration(r.Int63()>>uint(r.Intn(60))) / 1e6 * 1e6))
			return
		}
		x := int64(r.Uint64() >> uint(r.Intn(64)))
		for v.OverflowInt(x) {
			x /= 3
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := r.Uint64() >> uint(r.Intn(64))
		for v.OverflowUint(x) {
			x >>= 5
		}
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		x := float64(r.Intn(100000)) / []float64{1, 2, 4, 8}[r.Intn(4)]
		if v.Type() == reflect.TypeOf(m.FloatInf64(0)) && r.Intn(3) == 0 {
			x = math.Inf(1)
		}
		v.SetFloat(x)
	}
}

func isSCTEType(t reflect.Type) bool {
	f, ok := t.FieldByName("XMLName")
	return ok && f.Type == tName && f.Tag.Get("xml") == ""
}

func (s *structGen) fillStruct(v reflect.Value, elem string, depth int) {
	r := s.r
	t := v.Type()
	s.n++
	if t == tExt {
		v.FieldByName("XMLName").Set(reflect.ValueOf(xml.Name{Space: nsSCTE, Local: "Ext"}))
		v.FieldByName("InnerXML").SetString(extTexts[r.Intn(len(extTexts))])
		return
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		name, opts := tagName(f)
		if name == "-" || (f.PkgPath != "" && !f.Anonymous) {
			continue
		}
		if f.Type == tName {
			if f.Name == "XMLName" && f.Tag.Get("xml") == "" && elem != "" {
				v.Field(i).Set(reflect.ValueOf(xml.Name{Space: []string{nsSCTE, nsSCTE, nsSCTE, nsSCTE6}[r.Intn(4)], Local: elem}))
			}
			continue
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			s.fillStruct(v.Field(i), "", depth)
			continue
		}
		if f.Type == tAttrs {
			if r.Intn(4) == 0 {
				v.Field(i).Set(reflect.ValueOf([]xml.Attr{{Name: xml.Name{Space: []string{"", "urn:any"}[r.Intn(2)], Local: "zzany"}, Value: s.text(nil)}}))
			}
			continue
		}
		if name == "xmlns" {
			v.Field(i).SetString(nsDASH)
			continue
		}
		p := s.pField
		et := f.Type
		for et.Kind() == reflect.Pointer || et.Kind() == reflect.Slice {
			et = et.Elem()
		}
		if et.Kind() == reflect.Struct {
			if depth >= s.maxDepth || s.n > s.budget {
				continue
			}
			p = math.Min(1, p*0.6)
		}
		if r.Float64() >= p {
			continue
		}
		if name == "" {
			name = f.Name
		}
		if f.Anonymous && f.Type.Kind() == reflect.Pointer && et.Kind() == reflect.Struct {
			v.Field(i).Set(reflect.New(f.Type.Elem()))
			s.fillStruct(v.Field(i).Elem(), "", depth)
			continue
		}
		if et.Kind() == reflect.String && f.Type.Kind() == reflect.Pointer && f.Anonymous { // list of numbers
			v.Field(i).Set(reflect.New(f.Type.Elem()))
			v.Field(i).Elem().SetString("1 2 3")
			continue
		}
		s.fill(v.Field(i), name, depth+1, opts)
	}
	// white space next to the elements of an Event is indentation, never its value
	if e, ok := v.Addr().Interface().(*m.EventType); ok && strings.Trim(e.Value, " \t\r\n") == "" {
		e.Value = ""
	}
}

func (s *structGen) mpd() *m.MPD {
	s.n = 0
	x := &m.MPD{}
	s.fillStruct(reflect.ValueOf(x).Elem(), "", 0)
	x.SetParents()
	return x
}

func randomStructGen(r *rand.Rand) *structGen {
	return &structGen{r: r, g: &docGen{r: r}, pField: []float64{0.1, 0.3, 0.6, 0.95}[r.Intn(4)],
		maxDepth: 2 + r.Intn(5), budget: []int{15, 40, 80}[r.Intn(3)]}
}

// describe lists what a value says: one line per non-empty leaf, in order.
func describe(v reflect.Value, path string, out *[]string) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return
		}
		if k := v.Elem().Kind(); k != reflect.Struct && v.Elem().IsZero() {
			*out = append(*out, path+" -> zero")
			return
		}
		if v.Elem().Kind() == reflect.Struct {
			*out = append(*out, path)
		}
		describe(v.Elem(), path, out)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			describe(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Struct:
		t := v.Type()
		if t == tExt {
			*out = append(*out, path+" "+v.FieldByName("InnerXML").String())
			return
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous || f.Tag.Get("xml") == "-" {
				continue
			}
			if f.Type == tName {
				continue
			}
			if f.Type == tAttrs {
				as := v.Field(i).Interface().([]xml.Attr)
				var l []string
				for _, a := range as {
					if a.Name.Space != "xmlns" && a.Name.Space != "http://www.w3.org/2000/xmlns/" && a.Name.Local != "xmlns" {
						l = append(l, fmt.Sprintf("%s {%s}%s=%q", path, a.Name.Space, a.Name.Local, a.Value))
					}
				}
				sort.Strings(l)
				*out = append(*out, l...)
				continue
			}
			if f.Anonymous && f.Type.Kind() == reflect.Struct {
				describe(v.Field(i), path, out)
				continue
			}
			if _, o := tagName(f); hasOpt(o, "chardata") && f.Type.Kind() == reflect.Pointer && !v.Field(i).IsNil() && v.Field(i).Elem().IsZero() {
				continue // no text and empty text are the same
			}
			describe(v.Field(i), path+"."+f.Name, out)
		}
	default:
		if v.IsZero() {
			return
		}
		if v.Kind() == reflect.String {
			*out = append(*out, fmt.Sprintf("%s=%q", path, v.String()))
		} else if v.Kind() == reflect.Float64 || v.Kind() == reflect.Float32 {
			*out = append(*out, fmt.Sprintf("%s=%v", path, v.Float()))
		} else if v.Type() == reflect.TypeOf(m.Duration(0)) {
			*out = append(*out, fmt.Sprintf("%s=%dns", path, v.Int()))
		} else {
			*out = append(*out, fmt.Sprintf("%s=%v", path, v.Interface()))
		}
	}
}

func describeMPD(x *m.MPD) []string {
	var l []string
	describe(reflect.ValueOf(x).Elem(), "MPD", &l)
	return l
}
