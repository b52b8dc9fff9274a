package main

// C17: the decoder of package xml, stepped over texts exported by TLC from
// XmlMC (replay), and recorded over generated and damaged texts (record).

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	x "github.com/Eyevinn/dash-mpd/xml"
)

type cps []int

// codesOf: code points; a byte that is not UTF-8 is a code above 1114111
func codesOf(s string) cps {
	o := make(cps, 0, len(s))
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w == 1 {
			o = append(o, 1114112+int(s[i]))
		} else {
			o = append(o, int(r))
		}
		i += w
	}
	return o
}

func (c cps) text() string {
	var b strings.Builder
	for _, r := range c {
		if r > 1114111 {
			b.WriteByte(byte(r - 1114112))
		} else {
			b.WriteRune(rune(r))
		}
	}
	return b.String()
}

type xAttr struct {
	S cps `json:"s"`
	N cps `json:"n"`
	V cps `json:"v"`
}

type xTok struct {
	K string  `json:"k"`
	S cps     `json:"s"`
	N cps     `json:"n"`
	A []xAttr `json:"a"`
	T cps     `json:"t"`
	E int     `json:"e"`
}

type xPos struct {
	E int `json:"e"`
	L int `json:"l"`
	C int `json:"c"`
}

type xSkip struct {
	J   int  `json:"j"` // which start tag
	Err bool `json:"err"`
	E   int  `json:"e"`
}

type xFault struct {
	K   int    `json:"k"`   // codes x
	N   int    `json:"n"`   // tokens delivered
	Pre bool   `json:"pre"` // they are the first ones of the undisturbed run
	Err string `json:"err"`
}

type xEnt struct {
	N cps `json:"n"`
	V cps `json:"v"`
}

type xRef struct {
	OK   bool   `json:"ok"`
	Toks []xTok `json:"toks"`
}

type xRec struct {
	ID    string   `json:"id"`
	S     cps      `json:"s"`
	Conv  bool     `json:"conv"`
	Ents  []xEnt   `json:"ents"`
	Dflt  cps      `json:"dflt"`
	Pan   string   `json:"pan"`
	Toks  []xTok   `json:"toks"`
	Err   string   `json:"err"`
	Line  int      `json:"line"`
	After int      `json:"after"`
	Raw   []xTok   `json:"raw"`
	RErr  string   `json:"rerr"`
	Lax   []xTok   `json:"lax"`
	LErr  string   `json:"lerr"`
	Auto  []xTok   `json:"auto"`
	Same  []string `json:"same"`
	Pos   []xPos   `json:"pos"`
	Skip  []xSkip  `json:"skip"`
	Fault []xFault `json:"fault"`
	Wide  string   `json:"wide"`
	Ref   xRef     `json:"ref"`
}

var errReader = errors.New("the reader failed")

func errClass(err error) string {
	var se *x.SyntaxError
	switch {
	case err == nil:
		return ""
	case err == io.EOF:
		return "eof"
	case errors.As(err, &se):
		return "syntax"
	case errors.Is(err, errReader):
		return "reader"
	}
	return "other"
}

// offsets maps byte offsets to numbers of codes
func offsets(s string) []int {
	o := make([]int, len(s)+1)
	n := 0
	for i := 0; i < len(s); {
		_, w := utf8.DecodeRuneInString(s[i:])
		o[i] = n
		for j := 1; j < w; j++ {
			o[i+j] = -1
		}
		n++
		i += w
	}
	o[len(s)] = n
	return o
}

func tokOf(t x.Token) xTok {
	o := xTok{S: cps{}, N: cps{}, T: cps{}, A: []xAttr{}}
	switch t := t.(type) {
	case x.StartElement:
		o.K, o.S, o.N = "start", codesOf(t.Name.Space), codesOf(t.Name.Local)
		for _, a := range t.Attr {
			o.A = append(o.A, xAttr{codesOf(a.Name.Space), codesOf(a.Name.Local), codesOf(a.Value)})
		}
	case x.EndElement:
		o.K, o.S, o.N = "end", codesOf(t.Name.Space), codesOf(t.Name.Local)
	case x.CharData:
		o.K, o.T = "text", codesOf(string(t))
	case x.Comment:
		o.K, o.T = "comment", codesOf(string(t))
	case x.ProcInst:
		o.K, o.N, o.T = "pi", codesOf(t.Target), codesOf(string(t.Inst))
	case x.Directive:
		o.K, o.T = "dir", codesOf(string(t))
	default:
		o.K = fmt.Sprintf("%T", t)
	}
	return o
}

// readers that cut the text in different ways

type oneByte struct {
	s string
	i int
	z bool // now and then no bytes
}

func (r *oneByte) Read(p []byte) (int, error) {
	if r.i >= len(r.s) {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.z = !r.z; r.z && r.i%3 == 0 {
		return 0, nil
	}
	p[0] = r.s[r.i]
	r.i++
	return 1, nil
}

// chunks: the last bytes come together with the error
type chunks struct {
	s   string
	r   *rand.Rand
	err error
}

func (c *chunks) Read(p []byte) (int, error) {
	n := len(c.s)
	if n > 1 {
		n = 1 + c.r.Intn(n)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.s[:n])
	c.s = c.s[n:]
	if c.s == "" {
		return n, c.err
	}
	return n, nil
}

// rawTokens hands out the tokens of RawToken, the last one together with the error
type rawTokens struct {
	d        *x.Decoder
	together bool
	next     x.Token
	err      error
	primed   bool
}

func (t *rawTokens) Token() (x.Token, error) {
	if !t.together {
		tok, err := t.d.RawToken()
		return tok, err
	}
	if !t.primed {
		t.primed = true
		t.next, t.err = t.d.RawToken()
		t.next = x.CopyToken(t.next)
	}
	if t.next == nil {
		return nil, t.err
	}
	tok := t.next
	t.next, t.err = t.d.RawToken()
	t.next = x.CopyToken(t.next)
	if t.next == nil {
		return tok, t.err
	}
	return tok, nil
}

type decOpt struct {
	ents  map[string]string
	dflt  string
	lax   bool
	auto  []string
	conv  bool
	bytes string // what is read, when it is not the text (conv)
}

type latin1 struct {
	r io.Reader
	b []byte
}

func (l *latin1) Read(p []byte) (int, error) {
	if len(l.b) == 0 {
		var q [64]byte
		n, err := l.r.Read(q[:])
		for _, c := range q[:n] {
			l.b = utf8.AppendRune(l.b, rune(c))
		}
		if n == 0 {
			return 0, err
		}
	}
	n := copy(p, l.b)
	l.b = l.b[n:]
	return n, nil
}

func (o *decOpt) set(d *x.Decoder) *x.Decoder {
	d.Entity, d.DefaultSpace, d.Strict, d.AutoClose = o.ents, o.dflt, !o.lax, o.auto
	if o.conv {
		d.CharsetReader = func(cs string, r io.Reader) (io.Reader, error) {
			if !strings.EqualFold(cs, "iso-8859-1") {
				return nil, errors.New("unknown")
			}
			return &latin1{r: r}, nil
		}
	}
	return d
}

type tokRun struct {
	toks  []xTok
	err   string
	line  int
	after int
	pos   []xPos
}

const tokCap = 100000

func drain(d *x.Decoder, raw bool, off []int) tokRun {
	r := tokRun{toks: []xTok{}, pos: []xPos{}}
	next := d.Token
	if raw {
		next = d.RawToken
	}
	for {
		t, err := next()
		if err != nil {
			r.err = errClass(err)
			var se *x.SyntaxError
			if errors.As(err, &se) {
				r.line = se.Line
			}
			break
		}
		k := tokOf(t)
		if o := d.InputOffset(); off != nil && o >= 0 && o < int64(len(off)) {
			k.E = off[o]
		} else {
			k.E = -2
		}
		if off == nil {
			k.E = 0
		}
		r.toks = append(r.toks, k)
		l, c := d.InputPos()
		r.pos = append(r.pos, xPos{k.E, l, c})
		if len(r.toks) > tokCap {
			r.err = "endless"
			return r
		}
	}
	for i := 0; i < 3; i++ { // an error is final
		if t, err := next(); t != nil || err == nil {
			r.after++
		}
	}
	return r
}

func toksDigest(r tokRun) string {
	ts := make([]xTok, len(r.toks))
	for i, t := range r.toks {
		t.E = 0
		ts[i] = t
	}
	b, _ := json.Marshal(ts)
	return r.err + ":" + digest(string(b))
}

func entMap(es []xEnt) map[string]string {
	if len(es) == 0 {
		return nil
	}
	m := map[string]string{}
	for _, e := range es {
		m[e.N.text()] = e.V.text()
	}
	return m
}

func xmlRec(r *rand.Rand, id, s string, o decOpt) xRec {
	rec := xRec{ID: id, S: codesOf(s), Conv: o.conv, Ents: []xEnt{}, Dflt: codesOf(o.dflt), Toks: []xTok{}, Raw: []xTok{}, Lax: []xTok{}, Auto: []xTok{},
		Same: []string{}, Pos: []xPos{}, Skip: []xSkip{}, Fault: []xFault{}, Ref: xRef{Toks: []xTok{}}}
	for n, v := range o.ents {
		rec.Ents = append(rec.Ents, xEnt{codesOf(n), codesOf(v)})
	}
	off := offsets(s)
	in := s
	if o.conv {
		in = o.bytes
	}
	rec.Pan = guard(func() string { return "decode " + in }, func() {
		main := drain(o.set(x.NewDecoder(strings.NewReader(in))), false, off)
		rec.Toks, rec.Err, rec.Line, rec.After, rec.Pos = main.toks, main.err, main.line, main.after, main.pos
		raw := drain(o.set(x.NewDecoder(strings.NewReader(in))), true, off)
		rec.Raw, rec.RErr = raw.toks, raw.err
		rec.After += raw.after
		ol := o
		ol.lax = true
		lax := drain(ol.set(x.NewDecoder(&chunks{s: in, r: r, err: io.EOF})), false, off)
		rec.Lax, rec.LErr = lax.toks, lax.err
		rec.After += lax.after
		if r.Intn(3) == 0 {
			ol.auto = []string{"A", "b", "p"}
			rec.Auto = drain(ol.set(x.NewDecoder(bytes.NewBufferString(in))), false, off).toks
			for i := range rec.Auto {
				rec.Auto[i].A, rec.Auto[i].T = []xAttr{}, cps{}
			}
		}
		// the same text, cut and handed over in other ways
		same := []tokRun{main}
		for _, d := range []*x.Decoder{
			x.NewDecoder(&oneByte{s: in}),
			x.NewDecoder(&chunks{s: in, r: r, err: io.EOF}),
			x.NewDecoder(bytes.NewReader([]byte(in))),
		} {
			same = append(same, drain(o.set(d), false, off))
		}
		rec.Same = append(rec.Same, "")
		for i, t := range same {
			dg := toksDigest(t)
			if i > 0 && !samePos(t.pos, main.pos) {
				dg += " positions"
			}
			rec.Same = append(rec.Same, dg)
		}
		rec.Same = rec.Same[1:]
		if !o.lax {
			for _, tog := range []bool{false, true} {
				td := x.NewTokenDecoder(&rawTokens{d: o.set(x.NewDecoder(strings.NewReader(in))), together: tog})
				td.DefaultSpace = o.dflt
				rec.Same = append(rec.Same, toksDigest(drain(td, false, nil)))
			}
		}
		// Skip
		starts := 0
		for _, t := range rec.Toks {
			if t.K == "start" {
				starts++
			}
		}
		for q := 0; q < 4 && starts > 0; q++ {
			want := 1 + r.Intn(starts)
			d := o.set(x.NewDecoder(strings.NewReader(in)))
			for j := 0; j < want; {
				t, err := d.Token()
				if err != nil {
					break
				}
				if _, ok := t.(x.StartElement); ok {
					j++
				}
			}
			err := d.Skip()
			e := -2
			if p := d.InputOffset(); p >= 0 && p < int64(len(off)) {
				e = off[p]
			}
			rec.Skip = append(rec.Skip, xSkip{want, err != nil, e})
		}
		// the reader fails
		if !o.conv {
			for q := 0; q < 3; q++ {
				if errReader = nextFailure(); errors.Is(errReader, io.EOF) {
					errReader = nextFailure()
				}
				k := r.Intn(len(s) + 1)
				for off[k] < 0 {
					k--
				}
				var rd io.Reader = &chunks{s: s[:k], r: r, err: errReader}
				if k == 0 {
					rd = errorReader{}
				}
				if q == 1 {
					rd = io.MultiReader(strings.NewReader(s[:k]), errorReader{})
				}
				f := drain(o.set(x.NewDecoder(rd)), false, off)
				if n := len(f.toks) - 1; n == len(rec.Toks) && f.toks[n].K == "text" && rec.Err == "syntax" {
					f.toks = f.toks[:n] // the beginning of a text that is bad later on
				}
				pre := len(f.toks) <= len(rec.Toks)
				for i := 0; pre && i < len(f.toks); i++ {
					g, want := f.toks[i], rec.Toks[i]
					if i == len(f.toks)-1 && g.K == "text" && want.K == "text" && len(g.T) <= len(want.T) && g.E <= off[k] {
						// the beginning of a text
						want.T, want.E = want.T[:len(g.T)], g.E
					}
					pre = toksEq([]xTok{g}, []xTok{want})
				}
				rec.Fault = append(rec.Fault, xFault{off[k], len(f.toks), pre, f.err})
			}
		}
	})
	if rec.Pan == "" && !o.conv && rec.Err != "endless" && r.Intn(2) == 0 {
		rec.Pan = guard(func() string { return "decode stretched " + in }, func() {
			rec.Wide = wideRun(r, s, o, rec.Toks, rec.Err, rec.Pos)
		})
	}
	if len(o.ents) == 0 && !o.conv && o.dflt == "" {
		if d, err := refParseX(s, true); err == nil && d.NSErr == "" {
			rec.Ref.OK = true
			for _, e := range d.Events {
				if e.K != "start" && e.K != "end" && e.K != "text" {
					continue
				}
				t := xTok{K: e.K, S: codesOf(e.S), N: codesOf(e.N), T: codesOf(e.V), A: []xAttr{}}
				for _, a := range e.A {
					t.A = append(t.A, xAttr{codesOf(a.S), codesOf(a.N), codesOf(a.V)})
				}
				rec.Ref.Toks = append(rec.Ref.Toks, t)
			}
		}
	}
	return rec
}

// wideLetters occur in no keyword, entity or name of a namespace of XML
var wideLetters = []rune{'z', 'j', 'k', 'y', '_', 'é', 'W', 'Q', '\U0001F3AC'}

var wideLens = []int{2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 9000, 40000, 65535, 65536, 65537}

func wideCodes(q cps, c, k int) cps {
	n := 0
	for _, x := range q {
		if x == c {
			n++
		}
	}
	if n == 0 {
		return q
	}
	o := make(cps, 0, len(q)+n*(k-1))
	for _, x := range q {
		o = append(o, x)
		for j := 1; x == c && j < k; j++ {
			o = append(o, x)
		}
	}
	return o
}

func cpsEq(a, b cps) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var charRef = regexp.MustCompile(`&#(x[0-9a-fA-F]+|[0-9]+);`)

// refersTo: the letter is also there as a character reference
func refersTo(s string, c int64) bool {
	for _, m := range charRef.FindAllStringSubmatch(s, -1) {
		n, base := m[1], 10
		if n[0] == 'x' {
			n, base = n[1:], 16
		}
		if v, err := strconv.ParseInt(n, base, 64); err == nil && v == c {
			return true
		}
	}
	return false
}

// wideRun reads the text again with a letter written k times wherever it
// occurs, and with a long comment in front: the tokens are those of the text
// itself, up to that
func wideRun(r *rand.Rand, s string, o decOpt, toks []xTok, errc string, pos []xPos) string {
	codes := codesOf(s)
	for _, e := range o.ents {
		if strings.ContainsRune(e, 'é') {
			return ""
		}
	}
	var have []int
	for _, l := range wideLetters {
		if strings.ContainsRune(s, l) && !(l == 'é' && len(o.ents) > 0) && !refersTo(s, int64(l)) {
			have = append(have, int(l))
		}
	}
	compare := func(what string, run tokRun, c, k, push int) string {
		if run.err != errc {
			return fmt.Sprintf("%s: %q instead of %q", what, run.err, errc)
		}
		skip := 0
		if push > 0 {
			skip = 1
			if len(run.toks) == 0 || run.toks[0].K != "comment" || run.toks[0].E != push {
				return what + ": the comment"
			}
		}
		if len(run.toks) != len(toks)+skip {
			return fmt.Sprintf("%s: %d tokens instead of %d", what, len(run.toks), len(toks)+skip)
		}
		count := make([]int, len(codes)+1)
		for i, x := range codes {
			count[i+1] = count[i]
			if x == c {
				count[i+1]++
			}
		}
		for i, t := range toks {
			g := run.toks[i+skip]
			ok := g.K == t.K && cpsEq(g.S, wideCodes(t.S, c, k)) && cpsEq(g.N, wideCodes(t.N, c, k)) && cpsEq(g.T, wideCodes(t.T, c, k)) && len(g.A) == len(t.A)
			for j := 0; ok && j < len(t.A); j++ {
				ok = cpsEq(g.A[j].S, wideCodes(t.A[j].S, c, k)) && cpsEq(g.A[j].N, wideCodes(t.A[j].N, c, k)) && cpsEq(g.A[j].V, wideCodes(t.A[j].V, c, k))
			}
			if ok && t.E >= 0 && t.E < len(count) {
				ok = g.E == t.E+push+(k-1)*count[t.E]
			}
			if ok {
				ok = run.pos[i+skip].L == pos[i].L
			}
			if !ok {
				return fmt.Sprintf("%s: token %d differs", what, i)
			}
		}
		return ""
	}
	read := func(t string) tokRun {
		var rd io.Reader = strings.NewReader(t)
		if r.Intn(2) == 0 {
			rd = &chunks{s: t, r: r, err: io.EOF}
		}
		return drain(o.set(x.NewDecoder(rd)), false, offsets(t))
	}
	if len(have) > 0 {
		c := have[r.Intn(len(have))]
		n := 0
		for _, x := range codes {
			if x == c {
				n++
			}
		}
		k := wideLens[r.Intn(len(wideLens))]
		for n*k > 140000 {
			k = wideLens[r.Intn(len(wideLens)/2)]
		}
		run := read(wideCodes(codes, c, k).text())
		if w := compare(fmt.Sprintf("%c written %d times", rune(c), k), run, c, k, 0); w != "" {
			return w
		}
	}
	if !strings.HasPrefix(s, "<?xml") && !strings.HasPrefix(s, "\ufeff") && !strings.Contains(s, "<?xml ") && r.Intn(2) == 0 {
		n := []int{4096, 8192, 65536}[r.Intn(3)] - 7 - r.Intn(len(s)+1)
		if n > 0 {
			if w := compare(fmt.Sprintf("after a comment of %d", n), read("<!--"+strings.Repeat("c", n)+"-->"+s), -1, 1, n+7); w != "" {
				return w
			}
		}
	}
	return ""
}

func samePos(a, b []xPos) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type errorReader struct{}

func (errorReader) Read([]byte) (int, error) { return 0, errReader }

// ---------------------------------------------------------------- texts

var xFrags = []string{"<a>", "</a>", "<b/>", `<a xmlns="u">`, `<p:a xmlns:p="v">`, "</p:a>", "<a x='1' p:y=\"2\">", " ", "t", "&lt;", "&#65;", "&bad;",
	"]]>", "<![CDATA[", "]]", ">", "<!--", "-->", "--", "<?q ", "?>", "<!D>", "\r", "\n", "\r\n", "\"", "<", "/>", "=", "<a ", "x=\"", "&", "&#xD800;", ";",
	`<?xml version="1.0"?>`, "<!D \"", "<p:b>", "</p:b>", "x='1'", "\t", "\x01", "\u00e9", "-", `xmlns:p=""`, `<a x="1"x="2">`, "&ent;", "<!D [<!E>]>",
	"\xff", "\xed\xa0\x80", "\U0001F600", "\ufffe", "\ufeff", "&#0;", "&#x10FFFF;", "&#x110000;", "&#99999999999999999999999;", "&#x;", "&#;", "<:a>", "<a:>", "<a:b:c>",
	`<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version="1.0" encoding="iso-8859-1"?>`, `<?xml version="1.1"?>`, "<xml:a>", `<a xml:lang="en">`,
	"&amp", "&quot;", "&apos;", "&gt;", "<!DOCTYPE a [ <!ENTITY e 'x>y'> <!-- > ' --> ]>", "<!-", "<![CDAT", "<?q?>", "<??>", "<?é x?>", "<1>", "<a1.-\u00b7>", "</ a>", "</a >", "< a>",
	"<a\n\tx\n=\n'\n1\r\n'\n>", "<A>", "</A>", "<a/ >", "<a x=1>", "<a x>", "&a#b;", "&\u00e9;", "<\u00e9>", "</\u00e9>", "<p:a>", `<a xmlns:p="w" p:x="1" xmlns="z">`, `<b xmlns="">`, "</b>"}

func fragText(r *rand.Rand) string {
	var b strings.Builder
	for n := 1 + r.Intn(9); n > 0; n-- {
		b.WriteString(xFrags[r.Intn(len(xFrags))])
	}
	return b.String()
}

// treeText is well-formed, unless it is damaged: names in nested scopes of prefixes
func treeText(r *rand.Rand, depth int) string {
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	word := func(attr byte) string {
		var b strings.Builder
		for n := r.Intn(5); n > 0; n-- {
			b.WriteString(pick("a", "1", " ", "\n", "\t", "\r", "\r\n", "&lt;", "&amp;", "&gt;", "&#13;", "&#x9;", "&quot;", "&apos;", "\u00e5", "]]", "]", ">", "\U0001F3AC", "é", "--", "?", "/", "=", "j", "Q"))
		}
		s := b.String()
		if attr == 0 {
			s = strings.ReplaceAll(s, "]]>", "]]")
		}
		return s
	}
	var elem func(d int) string
	misc := func() string {
		switch r.Intn(5) {
		case 0:
			return "<!--" + pick("", " c ", "- ", "<a>", "&bad;", "a-b", "\r\n") + "-->"
		case 1:
			return "<?" + pick("q", "p.x", "xmlish") + pick("", " ", " a='b'", "\n<>&", " ?") + "?>"
		case 2:
			return "<![CDATA[" + pick("", "x", "]]", "]", "<&>", "\r\n", "]>", "&amp;") + "]]>"
		}
		return ""
	}
	elem = func(d int) string {
		name := pick("a", "b", "p:a", "q:a", "p:b", "c.d", "_x", "xml:a", "A", "z1", "z2", "k:z2", "k:z1", "_y")
		var b strings.Builder
		b.WriteString("<" + name)
		seen := map[string]bool{}
		for n := r.Intn(4); n > 0; n-- {
			an := pick("x", "y", "p:x", "q:x", "xmlns", "xmlns:p", "xmlns:q", "xml:lang", "r:z", "xmlns:r", "z1", "z2", "k:z1", "xmlns:k")
			if seen[an] {
				continue
			}
			seen[an] = true
			q := pick("\"", "'")
			v := word(q[0])
			if strings.HasPrefix(an, "xmlns") {
				v = pick("u", "v", "w", "urn:x y", "p", "&amp;", "j1", "j2")
				if an == "xmlns" && r.Intn(3) == 0 {
					v = ""
				}
			}
			b.WriteString(pick(" ", "\n", "\t ", "\r\n") + an + pick("", " ", "\n") + "=" + pick("", " ") + q + strings.ReplaceAll(v, q, "") + q)
		}
		b.WriteString(pick("", "", " ", "\n"))
		if r.Intn(5) == 0 {
			b.WriteString("/>")
			return b.String()
		}
		b.WriteString(">")
		if d > 0 {
			for n := r.Intn(4); n > 0; n-- {
				switch r.Intn(4) {
				case 0:
					b.WriteString(word(0))
				case 1:
					b.WriteString(misc())
				default:
					b.WriteString(elem(d - 1))
				}
			}
		}
		b.WriteString("</" + name + pick("", "", " ", "\n") + ">")
		return b.String()
	}
	s := pick("", "", `<?xml version="1.0" encoding="UTF-8"?>`, "<?xml version='1.0'?>\n", "\ufeff") + pick("", "<!DOCTYPE a>", "\n", misc()) + elem(depth) + pick("", "\n", misc())
	if r.Intn(6) == 0 {
		s += elem(1)
	}
	return s
}

// manyText has more names than a table of names may hold, and comes back to them
func manyText(r *rand.Rand) string {
	var b strings.Builder
	b.WriteString("<r>")
	for i := 0; i < 1120; {
		b.WriteString("<b")
		for k := 0; k < 40; k++ {
			fmt.Fprintf(&b, " %c%x=''", 'a'+i%7, i/7)
			i++
		}
		b.WriteString("/>")
	}
	for i := 0; i < 9; i++ {
		j := r.Intn(1120)
		fmt.Fprintf(&b, "<%c%x z='%d'/>", 'a'+j%7, j/7, i)
	}
	b.WriteString("</r>")
	return b.String()
}

// attrsText has an element with many attributes, two of which may be the same
func attrsText(r *rand.Rand) string {
	var b strings.Builder
	b.WriteString("<r xmlns:p='u' xmlns:q='u'")
	n := 28 + r.Intn(12)
	for i := 0; i < n; i++ {
		j := i
		if i > 0 && r.Intn(2*n) == 0 {
			j = r.Intn(i)
		}
		fmt.Fprintf(&b, " %sa%d='%d'", []string{"", "p:", "q:"}[j%3], j/2, i)
	}
	b.WriteString("/>")
	return b.String()
}

func damage(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + r.Intn(2); n > 0 && len(b) > 0; n-- {
		i := r.Intn(len(b))
		j := i + 1 + r.Intn(8)
		if j > len(b) {
			j = len(b)
		}
		switch r.Intn(7) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b = append(b[:i:i], b[j:]...)
		case 2:
			b = append(append(b[:i:i], b[i:j]...), b[i:]...)
		case 3:
			b = b[:i]
		case 4:
			b[i] = "<>&;\"'=/!?- \n\x00\xffpax:]["[r.Intn(21)]
		case 5:
			b = append(append(b[:i:i], xFrags[r.Intn(len(xFrags))]...), b[i:]...)
		case 6:
			k := r.Intn(len(b))
			b[i], b[k] = b[k], b[i]
		}
	}
	return string(b)
}

func repoTexts() []string {
	var out []string
	_ = filepath.Walk("/repo", func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && (strings.HasSuffix(p, ".mpd") || strings.HasSuffix(p, ".xml")) {
			if b, err := os.ReadFile(p); err == nil {
				out = append(out, string(b))
			}
		}
		return nil
	})
	return out
}

func cutCodes(s string, max int) string {
	n := 0
	for i := range s {
		if n++; n > max {
			return s[:i]
		}
	}
	return s
}

func init() {
	register("xml-replay", xmlReplay)
	register("xml-record", func(args []string) error {
		sch, _, err := loadSchema(args[0])
		if err != nil {
			return err
		}
		w, err := newRecWriter(args[1])
		if err != nil {
			return err
		}
		r := newRng(1717)
		types := sch.types()
		files := repoTexts()
		for i := 0; i < scale(4800, 40000); i++ {
			var s, kind string
			switch i % 8 {
			case 0:
				kind, s = "frags", fragText(r)
			case 1, 2:
				kind, s = "tree", treeText(r, 1+r.Intn(3))
			case 3, 4, 5:
				kind, s = "damaged", damage(r, treeText(r, 1+r.Intn(3)))
			case 6:
				d, so := randomDoc(r, sch, types, i, "noise")
				kind, s = "doc", spellDoc(r, d, &so)
				if r.Intn(2) == 0 {
					s = damage(r, cutCodes(s, 700))
				}
			case 7:
				kind = "tree"
				s = treeText(r, 2)
				if len(files) > 0 && r.Intn(2) == 0 {
					kind, s = "file", files[r.Intn(len(files))]
					if r.Intn(2) == 0 {
						s = damage(r, cutCodes(s, 500))
					}
				}
			}
			s = cutCodes(s, 700)
			if i%800 == 402 {
				kind, s = "many", manyText(r)
			}
			if i%50 == 7 {
				kind, s = "attrs", attrsText(r)
			}
			var o decOpt
			if r.Intn(4) == 0 {
				o.ents = map[string]string{"ent": []string{"[<]", "", "\u00e9", "\r\n"}[r.Intn(4)], "\u00e9": "e", "bad": "&"}
			}
			if r.Intn(5) == 0 {
				o.dflt = "urn:d"
			}
			if r.Intn(12) == 0 { // in another encoding
				p := `<?xml version="1.0" encoding="iso-8859-1"?>`
				s = p + strings.TrimPrefix(s, `<?xml version="1.0" encoding="UTF-8"?>`)
				var lb []byte
				var cs cps
				for _, c := range codesOf(s) {
					if c > 255 {
						c = 'z'
					}
					lb, cs = append(lb, byte(c)), append(cs, c)
				}
				s, o.bytes, o.conv = cs.text(), string(lb), true
			}
			w.put(xmlRec(r, fmt.Sprintf("%s:%d", kind, i), s, o))
		}
		return w.close()
	})
}

// ---------------------------------------------------------------- replay

type xCase struct {
	S    cps    `json:"s"`
	Err  string `json:"err"`
	Any  bool   `json:"any"`
	Toks []xTok `json:"toks"`
	LErr string `json:"lerr"`
	LAny bool   `json:"lany"`
	Lax  []xTok `json:"lax"`
}

// glued: neighbouring texts as one, no empty texts
func glued(ts []xTok) []xTok {
	o := []xTok{}
	for _, t := range ts {
		if t.K == "text" {
			if len(t.T) == 0 {
				continue
			}
			if n := len(o); n > 0 && o[n-1].K == "text" {
				t.T = append(append(cps{}, o[n-1].T...), t.T...)
				o[n-1] = t
				continue
			}
		}
		o = append(o, t)
	}
	return o
}

func firm(ts []xTok) []xTok {
	if n := len(ts); n > 0 && ts[n-1].K == "text" {
		return ts[:n-1]
	}
	return ts
}

func toksEq(a, b []xTok) bool {
	if len(a) != len(b) {
		return false
	}
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

func (t *xTok) UnmarshalJSON(b []byte) error {
	var q struct {
		K       string
		S, N, T cps
		A       []xAttr
		E       int
	}
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	*t = xTok{q.K, q.S, q.N, q.A, q.T, q.E}
	return nil
}

func xmlReplay(args []string) error {
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	sum := summary{Summary: true}
	ents := map[string]string{"ent": "[<]"}
	bad := 0
	err = readCases(args[0], func(raw []byte) error {
		var c xCase
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		s := c.S.text()
		off := offsets(s)
		sum.Cases++
		if len(sum.Samples) < 2 && len(c.Toks) > 2 {
			sum.Samples = append(sum.Samples, map[string]any{"text": s, "tokens": len(c.Toks), "err": c.Err})
		}
		say := func(what string, got any) {
			if bad++; bad <= 50 {
				w.put(mismatch{what, map[string]any{"text": s, "codes": c.S}, got, c})
			}
		}
		judge := func(how string, run tokRun, err string, any bool, toks []xTok) {
			sum.Checks++
			g := glued(run.toks)
			switch {
			case run.err == "endless":
				say(how+": tokens without end", len(run.toks))
			case any:
				f := firm(toks)
				if len(g) < len(f) || !toksEq(g[:len(f)], f) {
					say(how+": tokens before unusual markup", g)
				}
			case err != "" && run.err == "eof":
				say(how+": accepted: "+err, g)
			case err == "" && run.err != "eof":
				say(how+": rejected", run.err)
			case !toksEq(g, toks):
				say(how+": tokens differ", g)
			case run.after != 0:
				say(how+": tokens after the end", run.after)
			}
		}
		var a, l tokRun
		if p := guard(func() string { return "decode " + s }, func() {
			o := decOpt{ents: ents}
			a = drain(o.set(x.NewDecoder(strings.NewReader(s))), false, off)
			o.lax = true
			l = drain(o.set(x.NewDecoder(&oneByte{s: s})), false, off)
		}); p != "" {
			say("panic: "+p, nil)
			return nil
		}
		judge("strict", a, c.Err, c.Any, c.Toks)
		if c.Err == "" {
			judge("not strict", l, c.Err, c.Any, c.Toks)
		} else {
			judge("not strict", l, c.LErr, c.LAny || c.LErr != "", c.Lax)
		}
		return nil
	})
	if err != nil {
		return err
	}
	w.put(sum)
	return w.close()
}
