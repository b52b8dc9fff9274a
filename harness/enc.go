package main

// C18: sessions with the encoder of package xml, over token sequences that TLC
// exports from EncMC and over generated ones.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	x "github.com/Eyevinn/dash-mpd/xml"
)

const xmlnsURI = "http://www.w3.org/2000/xmlns/"
const xmlURI = "http://www.w3.org/XML/1998/namespace"

type eTok struct {
	K string  `json:"k"`
	S cps     `json:"s"`
	N cps     `json:"n"`
	A []xAttr `json:"a"`
	T cps     `json:"t"`
}

type eInd struct {
	Prefix cps `json:"prefix"`
	Indent cps `json:"indent"`
}

type eRec struct {
	ID    string `json:"id"`
	Ind   eInd   `json:"ind"`
	Toks  []eTok `json:"toks"`
	Acc   []bool `json:"acc"`
	Close bool   `json:"close"` // Close reports an error
	Late  bool   `json:"late"`  // a token is taken after Close
	Out   cps    `json:"out"`
	Got   []xTok `json:"got"`
	Err   string `json:"err"`
	Pan   string `json:"pan"`
	Wide  string `json:"wide"`
}

func (t *eTok) name() x.Name { return x.Name{Space: t.S.text(), Local: t.N.text()} }

func (t *eTok) token() x.Token {
	switch t.K {
	case "start":
		s := x.StartElement{Name: t.name()}
		for _, a := range t.A {
			s.Attr = append(s.Attr, x.Attr{Name: x.Name{Space: a.S.text(), Local: a.N.text()}, Value: a.V.text()})
		}
		return s
	case "end":
		return x.EndElement{Name: t.name()}
	case "text":
		return x.CharData(t.T.text())
	case "comment":
		return x.Comment(t.T.text())
	case "dir":
		return x.Directive(t.T.text())
	case "pi":
		return x.ProcInst{Target: t.N.text(), Inst: []byte(t.T.text())}
	}
	panic("no token: " + t.K)
}

// encPlayer writes tokens; elements written at once are marked in one
type encPlayer struct {
	toks []eTok
	acc  []bool
	i    int
	one  map[int]bool // the start tag there, a text and an end tag go into one EncodeElement
	bad  string
	enc  *x.Encoder
	at   map[int][2]int // where the attributes of a start tag are
	atts []x.Attr       // the attributes of all start tags, one after the other
	once bool           // what the encoder was given is overwritten afterwards
}

// encHolder has an attribute of its own, and text
type encHolder struct {
	Z string `xml:"zq,attr"`
	T string `xml:",chardata"`
}

// held: the last attribute is that of the value that is written
func held(t eTok) bool {
	n := len(t.A)
	return n > 0 && len(t.A[n-1].S) == 0 && t.A[n-1].N.text() == "zq"
}

// layout puts the attributes of all start tags into one array: the slice that
// the encoder is given is followed by those of other tags
func (p *encPlayer) layout() (atts []x.Attr) {
	p.at = map[int][2]int{}
	for i, t := range p.toks {
		if t.K != "start" {
			continue
		}
		as := t.token().(x.StartElement).Attr
		if p.one[i] && held(t) {
			as = as[:len(as)-1]
		}
		p.at[i] = [2]int{len(atts), len(atts) + len(as)}
		atts = append(atts, as...)
	}
	return
}

// start: the start tag at i
func (p *encPlayer) start(i int) x.StartElement {
	s := x.StartElement{Name: p.toks[i].name()}
	if at := p.at[i]; at[1] > at[0] {
		s.Attr = p.atts[at[0]:at[1]]
		if p.once {
			s.Attr = append([]x.Attr{}, s.Attr...)
		}
	}
	return s
}

// spend overwrites what the encoder has been given: it is no longer its business
func (p *encPlayer) spend(tok x.Token) {
	if !p.once {
		return
	}
	spoil := func(b []byte) {
		for i := range b {
			b[i] = '%'
		}
	}
	switch t := tok.(type) {
	case x.StartElement:
		for i := range t.Attr {
			t.Attr[i] = x.Attr{Name: x.Name{Space: "urn:spent", Local: "spent"}, Value: "spent"}
		}
	case x.CharData:
		spoil(t)
	case x.Comment:
		spoil(t)
	case x.Directive:
		spoil(t)
	case x.ProcInst:
		spoil(t.Inst)
	}
}

type encFrame struct{ p *encPlayer }

func (f encFrame) MarshalXML(e *x.Encoder, start x.StartElement) error {
	p := f.p
	if e != p.enc {
		p.bad = "a value is given another encoder"
	}
	if start.Name.Local != "frame" || start.Name.Space != "sp" || len(start.Attr) != 1 {
		p.bad = "a value is given another start tag"
	}
	p.run(true)
	return nil
}

type encText string

func (t encText) MarshalText() ([]byte, error) { return []byte(t), nil }

func (p *encPlayer) add(t eTok, ok bool) {
	p.acc = append(p.acc, ok)
	p.i++
	_ = t
}

// run plays tokens until the end, or the end of the frame; false: leave the encoder alone
func (p *encPlayer) run(inner bool) bool {
	for p.i < len(p.toks) {
		t := p.toks[p.i]
		switch t.K {
		case "flush":
			p.add(t, p.enc.Flush() == nil)
		case "finish":
			if inner {
				return true
			}
			p.add(t, false) // nothing to finish
			return false
		case "begin":
			p.add(t, true)
			err := p.enc.EncodeElement(encFrame{p}, x.StartElement{Name: x.Name{Space: "sp", Local: "frame"}, Attr: []x.Attr{{Name: x.Name{Local: "q"}}}})
			if p.i == len(p.toks) {
				p.toks = append(p.toks, eTok{K: "finish"})
			}
			p.add(p.toks[p.i], err == nil)
			if err != nil {
				p.toks = p.toks[:p.i]
				return false
			}
		default:
			if p.one[p.i] {
				var v any = p.toks[p.i+1].T.text()
				switch p.i % 3 {
				case 1:
					v = []byte(v.(string))
				case 2:
					v = encText(v.(string))
				}
				if held(t) {
					v = encHolder{t.A[len(t.A)-1].V.text(), p.toks[p.i+1].T.text()}
				}
				start := p.start(p.i)
				err := p.enc.EncodeElement(v, start)
				p.spend(start)
				for range 3 {
					p.add(t, err == nil)
				}
				continue
			}
			tok := t.token()
			if t.K == "start" {
				tok = p.start(p.i)
			}
			err := p.enc.EncodeToken(tok)
			p.add(t, err == nil)
			if !reflect.DeepEqual(tok, t.token()) {
				p.bad = "a token is changed"
			}
			p.spend(tok)
		}
	}
	return true
}

// encWide is the session with the letter ж written k times wherever it occurs:
// what is taken and what is read in the output is the same, up to that
// (XmlMC!Uniform)
func encWide(rec *eRec, toks []eTok, one map[int]bool, prefix, indent string, pooled bool, k int) {
	n := 0
	wide := func(c cps) cps {
		w := wideCodes(c, tgWide, k)
		n += len(w) - len(c)
		return w
	}
	wt := make([]eTok, len(toks))
	for i, t := range toks {
		t.S, t.N, t.T = wide(t.S), wide(t.N), wide(t.T)
		as := make([]xAttr, len(t.A))
		for j, a := range t.A {
			as[j] = xAttr{wide(a.S), wide(a.N), wide(a.V)}
		}
		t.A = as
		wt[i] = t
	}
	if n == 0 || n > 300000 {
		return
	}
	g := encSession(rec.ID, wt, one, prefix, indent, pooled)
	plain := func(toks []xTok, k int) []xTok {
		o := make([]xTok, len(toks))
		for i, t := range toks {
			t.S, t.N, t.T = wideCodes(t.S, tgWide, k), wideCodes(t.N, tgWide, k), wideCodes(t.T, tgWide, k)
			as := []xAttr{}
			for _, a := range t.A {
				if s, l := a.S.text(), a.N.text(); s == "xmlns" || s == xmlnsURI || s == "" && l == "xmlns" {
					continue // with which prefixes is up to the encoder
				}
				as = append(as, xAttr{wideCodes(a.S, tgWide, k), wideCodes(a.N, tgWide, k), wideCodes(a.V, tgWide, k)})
			}
			t.A = as
			o[i] = t
		}
		return o
	}
	switch {
	case g.Pan != "":
		rec.Wide = g.Pan
	case !reflect.DeepEqual(g.Acc, rec.Acc) || g.Close != rec.Close || g.Late != rec.Late:
		rec.Wide = "other tokens are taken"
	case g.Err != rec.Err:
		rec.Wide = fmt.Sprintf("%q when reading instead of %q", g.Err, rec.Err)
	case !toksEq(plain(g.Got, 1), plain(rec.Got, k)):
		rec.Wide = "something else is read"
	}
	if rec.Wide != "" {
		rec.Wide = fmt.Sprintf("%c written %d times: %s", tgWide, k, rec.Wide)
	}
}

func encSession(id string, toks []eTok, one map[int]bool, prefix, indent string, pooled bool) eRec {
	rec := eRec{ID: id, Ind: eInd{codesOf(prefix), codesOf(indent)}, Got: []xTok{}}
	p := &encPlayer{toks: append([]eTok(nil), toks...), one: one, acc: []bool{}, once: len(toks)%2 == 0}
	var buf bytes.Buffer
	rec.Pan = guard(func() string { b, _ := json.Marshal(toks); return id + " " + string(b) }, func() {
		if pooled {
			p.enc = x.AcquireEncoder(&buf)
			defer x.ReleaseEncoder(p.enc)
		} else {
			p.enc = x.NewEncoder(&buf)
		}
		if prefix != "" || indent != "" {
			p.enc.Indent(prefix, indent)
		}
		p.atts = p.layout()
		all := append([]eTok(nil), p.toks...)
		p.run(false)
		played := p.toks
		if p.toks = all; !reflect.DeepEqual(p.atts, p.layout()) {
			p.bad = "attributes of a token are changed"
		}
		p.toks = played
		rec.Close = p.enc.Close() != nil
		n := buf.Len()
		rec.Late = p.enc.EncodeToken(x.CharData("x")) == nil || p.enc.EncodeToken(x.StartElement{Name: x.Name{Local: "a"}}) == nil || buf.Len() != n
	})
	if rec.Pan == "" && p.bad != "" {
		rec.Pan = p.bad
	}
	rec.Toks, rec.Acc = p.toks[:len(p.acc)], p.acc
	for i := range rec.Toks {
		t := &rec.Toks[i]
		if t.S == nil {
			t.S = cps{}
		}
		if t.N == nil {
			t.N = cps{}
		}
		if t.T == nil {
			t.T = cps{}
		}
		if t.A == nil {
			t.A = []xAttr{}
		}
	}
	out := buf.String()
	rec.Out = codesOf(out)
	if pan := guard(func() string { return "decoding " + out }, func() {
		g := drain(x.NewDecoder(strings.NewReader(out)), false, nil)
		rec.Got, rec.Err = g.toks, g.err
	}); pan != "" && rec.Pan == "" {
		rec.Pan = pan
	}
	return rec
}

var encIndents = [][2]string{{"", ""}, {"", "  "}, {" ", "\t"}, {"\t", ""}}

// encReplay CASES OUT
func encReplay(args []string) error {
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	n := 0
	err = readCases(args[0], func(raw []byte) error {
		var c struct {
			Toks []eTok `json:"toks"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		n++
		in := encIndents[0]
		if n%3 == 0 {
			in = encIndents[1+n/3%3]
		}
		w.put(encSession(fmt.Sprintf("case:%d", n), c.Toks, nil, in[0], in[1], n%2 == 0))
		return nil
	})
	if err != nil {
		return err
	}
	return w.close()
}

var (
	encSpaces = []string{"", "", "", "u", "u", "v", "http://x/v", "http://y/v", "http://y/v/", "urn:a:b", "http://x/xml", "http://x/XmlFoo", "http://x/1x", "///", "é", "a&b<\"'>", "x y", "http://x/a:b", "_", "p", "xmlns", xmlURI, "ж", "http://x/ж"}
	encPres   = []string{"", "", "", "", "p", "q", "v", "v_1", "v_2", "_", "__1", "xml", "é", "u", "ж"}
	encLocals = []string{"a", "a", "a", "b", "é", "_", "x-1.2", "ж"}
	encDeclPs = []string{"p", "q", "v", "v_1", "_", "u", "__1", "p", "q", "_xml", "ж"}
)

func encPick(r *rand.Rand, s []string) string { return s[r.Intn(len(s))] }

func encLocal(r *rand.Rand, space string) string {
	l := encPick(r, encLocals)
	if space != "" {
		if p := encPick(r, encPres); p != "" {
			return p + ":" + l
		}
	}
	return l
}

func encText1(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		if r.Intn(500) == 0 { // more than the encoder keeps
			return strings.Repeat("long text ", 420)
		}
		return strings.Repeat("long text ", 1+r.Intn(4))
	case 2:
		return "]]>"
	}
	var b strings.Builder
	for range 1 + r.Intn(6) {
		b.WriteString(encPick(r, []string{"x", " ", "\n", "\t", "\r", "<", "&", ">", "\"", "'", "é", "\u2028", "\x01", "\ufffd", "\U0001F600", "-", "]", "ж"}))
	}
	return b.String()
}

func encAttrs(r *rand.Rand, space string) []xAttr {
	var as []xAttr
	seen := map[string]bool{}
	bare := func(n string) string { return n[strings.IndexByte(n, ':')+1:] }
	for range r.Intn(5) {
		var a xAttr
		switch r.Intn(4) {
		case 0: // a declaration
			u := encPick(r, encSpaces)
			if u == xmlURI {
				continue
			}
			if r.Intn(3) == 0 {
				a = xAttr{cps{}, codesOf("xmlns"), codesOf(u)}
			} else if u != "" {
				a = xAttr{codesOf(xmlnsURI), codesOf(encPick(r, encDeclPs)), codesOf(u)}
			} else {
				continue
			}
			if r.Intn(3) == 0 && space != "" && space != xmlURI {
				a.V = codesOf(space)
			}
		default:
			s := encPick(r, encSpaces)
			if r.Intn(3) == 0 {
				s = space
			}
			a = xAttr{codesOf(s), codesOf(encLocal(r, s)), codesOf(encText1(r))}
		}
		key := a.S.text() + " " + bare(a.N.text())
		if seen[key] {
			continue
		}
		seen[key] = true
		as = append(as, a)
	}
	if as == nil {
		as = []xAttr{}
	}
	if r.Intn(40) == 0 {
		as = append(as, xAttr{cps{}, cps{}, codesOf("v")})
	}
	return as
}

func encToks(r *rand.Rand, n int) ([]eTok, map[int]bool) {
	var toks []eTok
	one := map[int]bool{}
	type el struct{ s, n string }
	var open []el
	frames := []int{0}
	text := func(k, n, t string) eTok { return eTok{K: k, N: codesOf(n), T: codesOf(t)} }
	start := func() (eTok, el) {
		s := encPick(r, encSpaces)
		if len(open) > 0 && r.Intn(3) == 0 {
			s = open[r.Intn(len(open))].s
		}
		l := encLocal(r, s)
		if r.Intn(60) == 0 {
			l = ""
		}
		return eTok{K: "start", S: codesOf(s), N: codesOf(l), A: encAttrs(r, s)}, el{s, l}
	}
	if r.Intn(6) == 0 {
		toks = append(toks, text("pi", "xml", "version=\"1.0\" encoding=\"UTF-8\""))
	}
	for len(toks) < n {
		switch k := r.Intn(100); {
		case k < 34:
			t, e := start()
			toks = append(toks, t)
			if e.n != "" {
				open = append(open, e)
			}
		case k < 62:
			if len(open) == frames[len(frames)-1] {
				if r.Intn(6) == 0 {
					toks = append(toks, eTok{K: "end", S: codesOf("u"), N: codesOf("a")})
				}
				continue
			}
			e := open[len(open)-1]
			nm, s := e.n, e.s
			b := nm[strings.IndexByte(nm, ':')+1:]
			switch r.Intn(14) {
			case 0, 1, 2, 3:
				nm = b
			case 4:
				nm = b + "x"
			case 5:
				s += "x"
			case 6:
				nm = ""
			case 7:
				if len(open) > 1 {
					e2 := open[len(open)-2]
					nm, s = e2.n, e2.s
				}
			}
			toks = append(toks, eTok{K: "end", S: codesOf(s), N: codesOf(nm)})
			if nm != "" && nm[strings.IndexByte(nm, ':')+1:] == b && s == e.s {
				open = open[:len(open)-1]
			}
		case k < 72:
			toks = append(toks, text("text", "", encText1(r)))
		case k < 78:
			t, e := start()
			if e.n == "" {
				continue
			}
			one[len(toks)] = true
			if r.Intn(3) == 0 {
				t.A = append(t.A, xAttr{cps{}, codesOf("zq"), codesOf(encText1(r))})
			}
			toks = append(toks, t, text("text", "", encText1(r)), eTok{K: "end", S: codesOf(e.s), N: codesOf(e.n)})
		case k < 82:
			toks = append(toks, text("comment", "", encPick(r, []string{"c", "", "-", "--", "a-", "-a", "a--b", "-->", "é", "\x01", "\xff", "<a>", "a - b", "]]>", "?>"})))
		case k < 86:
			if r.Intn(6) == 0 {
				toks = append(toks, text("pi", "xml", "version=\"1.0\""))
				continue
			}
			toks = append(toks, text("pi", encPick(r, []string{"t", "t", "t", "a:b", "1", "", "é", "x y"}), encPick(r, []string{"i", "", "?", "a?b", "?>", "a ?> b", "\x01", "\xff", "é", "<a>", "-->", "version=\"1.0\""})))
		case k < 90:
			toks = append(toks, text("dir", "", encPick(r, []string{"d", "DOCTYPE a", "d<e>", "d<", "d>", "d'>'", "d\"", "d<'>'>", "", "-", "--d", "[CDATA[x]]", "<e>", "d\x01", "d\xff", "d<e<f>>", "d<e>>", "'d'", "d<!-->", "d<!---->", "d<!-- ' -->e<!--x-->", "d '<!--'", "dé"})))
		case k < 93:
			toks = append(toks, eTok{K: "flush"})
		case k < 96:
			toks = append(toks, eTok{K: "begin"})
			frames = append(frames, len(open))
		default:
			if len(frames) > 1 {
				if len(open) > frames[len(frames)-1] && r.Intn(3) > 0 {
					continue
				}
				toks = append(toks, eTok{K: "finish"})
				frames = frames[:len(frames)-1]
			}
		}
	}
	// mostly everything is closed in the end
	if r.Intn(4) > 0 {
		for len(frames) > 0 {
			for len(open) > frames[len(frames)-1] {
				e := open[len(open)-1]
				toks = append(toks, eTok{K: "end", S: codesOf(e.s), N: codesOf(e.n)})
				open = open[:len(open)-1]
			}
			frames = frames[:len(frames)-1]
			if len(frames) > 0 {
				toks = append(toks, eTok{K: "finish"})
			}
		}
	}
	return toks, one
}

// encRecord OUT
func encRecord(args []string) error {
	w, err := newRecWriter(args[0])
	if err != nil {
		return err
	}
	r := newRng(18)
	for i := 0; i < scale(2200, 25000); i++ {
		toks, one := encToks(r, 2+r.Intn(scale(22, 40)))
		in := encIndents[0]
		if r.Intn(3) == 0 {
			in = encIndents[r.Intn(4)]
		}
		pooled := r.Intn(2) == 0
		rec := encSession(fmt.Sprintf("session:%d", i), toks, one, in[0], in[1], pooled)
		if i%2 == 0 && rec.Pan == "" {
			encWide(&rec, toks, one, in[0], in[1], pooled, wideLens[r.Intn(len(wideLens)-3)])
		}
		w.put(rec)
	}
	return w.close()
}

func init() {
	register("enc-replay", encReplay)
	register("enc-record", encRecord)
}
