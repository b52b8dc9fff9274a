package main

// Documents over the schema of the specification (exported by TLC from
// MpdSchema.tla) and many ways to spell them.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

type sAttr struct {
	S, N, K string
	P       bool
}
type sKid struct {
	S, N, T string
	Many    bool
}
type sType struct {
	Attrs []sAttr
	Kids  []sKid
	Text  string
	Any   bool
}
type schemaT map[string]*sType

type gattr struct{ S, N, V string }
type gnode struct {
	S, N string
	A    []gattr
	K    []*gnode
	T    string // character data (put before, between and after the children)
	Raw  bool   // content may be anything: K are foreign elements
	typ  string
	mixT []string // T split over the gaps between children
}

type caseLine struct {
	ID string          `json:"id"`
	D  json.RawMessage `json:"d"`
}

// loadSchema reads the line "schema" of a TLC export and the documents.
func loadSchema(path string) (sch schemaT, docs []struct {
	ID string
	D  *gnode
}, err error) {
	err = readCases(path, func(raw []byte) error {
		var l caseLine
		if err := json.Unmarshal(raw, &l); err != nil {
			return err
		}
		if l.ID == "schema" {
			return json.Unmarshal(l.D, &sch)
		}
		var g gnode
		if err := json.Unmarshal(l.D, &g); err != nil {
			return err
		}
		docs = append(docs, struct {
			ID string
			D  *gnode
		}{l.ID, &g})
		return nil
	})
	if err == nil && sch == nil {
		err = fmt.Errorf("no schema in %s", path)
	}
	return
}

const (
	nsDASH  = "urn:mpeg:dash:schema:mpd:2011"
	nsSCTE  = "http://www.scte.org/schemas/35"
	nsSCTE6 = "http://www.scte.org/schemas/35/2016"
)

// ------------------------------------------------------------- random trees

type genOpt struct {
	pAttr, pKid   float64
	maxDepth      int
	budget        int
	bad           float64 // probability of a wrong attribute value
	unknownAny    float64 // unknown attributes where they are kept
	mixed         bool    // Events with text and children
	textSpecials  bool
	outerExt      float64
	onlyScte      bool
	focus         string // child kinds on the way to this type are always taken
	bigText, bigN bool
}

type docGen struct {
	r   *rand.Rand
	sch schemaT
	o   genOpt
	n   int
	bad int
	way map[string]bool // types from which focus is reachable
}

var strPool = []string{"a", "audio/mp4", "urn:mpeg:dash:23003:3:audio_channel_configuration:2011", "http://example.com/a?b=c&d=e",
	"$RepresentationID$_$Number%05d$.m4s", "2011-10-05T14:48:00.000Z", "eng", "avc1.64001f,mp4a.40.2", "x y", " lead", "trail ", "a  b",
	"<tag>", "&amp;", "]]>", "\"q\"", "'q'", "`", "é", "日本語", "😀", "a\u00a0b", "\u2028", "\ufffd", "-->", "<!--", "<?pi?>", "<![CDATA[x]]>", "0", "true", "xmlns", "{", "\\", "%", "\u007f", "\u0085", "ж", "ж1", "ж&ж"}

func (g *docGen) str(allowWS bool) string {
	r := g.r
	switch r.Intn(12) {
	case 0:
		return ""
	case 1, 2, 3, 4, 5:
		return strPool[r.Intn(8)]
	case 6, 7, 8:
		return strPool[r.Intn(len(strPool))]
	}
	n := 1 + r.Intn(8)
	if g.o.bigText && r.Intn(6) == 0 {
		n = 1000 + r.Intn(8000)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if allowWS && r.Intn(20) == 0 {
			b.WriteString([]string{"\n", "\t", "\r", "\r\n"}[r.Intn(4)])
		} else if r.Intn(3) == 0 {
			b.WriteString(strPool[r.Intn(len(strPool))])
		} else {
			b.WriteByte(byte('a' + r.Intn(26)))
		}
	}
	return b.String()
}

func (g *docGen) digits(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(byte('0' + g.r.Intn(10)))
	}
	return b.String()
}

var maxOf = map[string]uint64{"u8": 255, "u16": 65535, "u32": 1<<32 - 1, "u64": 1<<64 - 1, "i32": 1<<31 - 1, "i64": 1<<63 - 1}

func (g *docGen) value(kind string) string {
	r := g.r
	pad := func(s string) string {
		if r.Intn(25) == 0 {
			return [...]string{" ", "\n", "  "}[r.Intn(3)] + s + " "
		}
		return s
	}
	switch kind {
	case "s":
		return g.str(true)
	case "list":
		n := 1 + r.Intn(4)
		var w []string
		for i := 0; i < n; i++ {
			w = append(w, []string{"a", "br", "cmcd", "日", "x&y", "a\u00a0b", "\u2003x", "y\u0085"}[r.Intn(8)]+g.digits(r.Intn(3)))
		}
		return strings.Join(w, []string{" ", " ", "  ", "\t"}[r.Intn(4)])
	case "b":
		return pad([]string{"true", "false", "1", "0"}[r.Intn(4)])
	case "d":
		var s string
		switch r.Intn(9) {
		case 0:
			s = "PT" + g.digits(1+r.Intn(5)) + "S"
		case 1:
			s = "PT" + g.digits(1+r.Intn(3)) + "." + g.digits(1+r.Intn(3)) + "S"
		case 2:
			s = "PT" + g.digits(1) + "H" + g.digits(2) + "M" + g.digits(2) + "S"
		case 3:
			s = "P" + g.digits(1) + "DT" + g.digits(2) + "H"
		case 4:
			s = "PT0.000" + g.digits(1+r.Intn(8)) + "S"
		case 5:
			s = "PT" + g.digits(2) + "M" + g.digits(2) + "." + g.digits(1+r.Intn(9)) + "S"
		case 6:
			s = "PT59.999" + g.digits(3) + "S"
		case 7:
			s = []string{"PT0S", "P0D", "PT1H", "PT1M", "P1D", "PT2562047H", "PT59M59.9996S", "PT0.9999S"}[r.Intn(8)]
		default:
			s = "PT" + g.digits(1+r.Intn(4)) + "H" + g.digits(1+r.Intn(3)) + "M"
		}
		return s
	case "f64", "f32", "finf":
		if kind == "finf" && r.Intn(4) == 0 {
			return "INF"
		}
		n := 14
		if kind == "f32" {
			n = 5
		}
		a := 1 + r.Intn(n/2)
		s := g.digits(a)
		if r.Intn(2) == 0 {
			s += "." + g.digits(1+r.Intn(n-a))
		}
		if r.Intn(5) == 0 {
			s = "-" + s
		}
		if r.Intn(6) == 0 {
			s += []string{"e", "E"}[r.Intn(2)] + []string{"", "+", "-"}[r.Intn(3)] + strconv.Itoa(r.Intn(20))
		}
		return pad(s)
	}
	m := maxOf[kind]
	var v uint64
	switch r.Intn(6) {
	case 0:
		v = 0
	case 1:
		v = 1
	case 2:
		v = m
	case 3:
		v = m - uint64(r.Intn(3))
	case 4:
		v = uint64(r.Intn(100000)) % (m/2 + 1)
	default:
		v = r.Uint64() >> uint(r.Intn(64)) % (m/2 + 1) % (m/2 + 1)
	}
	if m != 1<<64-1 {
		v %= m + 1
	}
	s := strconv.FormatUint(v, 10)
	if r.Intn(15) == 0 {
		s = "00" + s
	}
	if kind[0] == 'i' && r.Intn(3) == 0 {
		s = "-" + s
	}
	return pad(s)
}

func (g *docGen) badValue(kind string) (string, bool) {
	r := g.r
	var pool []string
	switch kind {
	case "s", "list":
		return "", false
	case "b":
		pool = []string{"yes", "2", "10", "truefalse", "maybe", "00", "\u0661"}
	case "d":
		pool = []string{"1S", "PT", "P1Y", "P1M", "PT1.5M", "PTS", "PT1S2", "P1D2H", "PT1H1H", "PT-1S", "PT1,5S", "PT99999999999H", "PT.5S", "abc"}
	case "f64", "f32", "finf":
		pool = []string{"abc", "1.2.3", "--1", "1-", "1 2", "x1", "1_0é"}
	default:
		m := maxOf[kind]
		pool = []string{"x", "1.5", "0x10", "1e3", "1 2", "٣", "--1", "99999999999999999999", "1-", "12a"}
		if m != 1<<64-1 {
			pool = append(pool, strconv.FormatUint(m+1+uint64(r.Intn(2))*uint64(kind[0]&1), 10))
			if kind[0] == 'i' {
				pool = append(pool, "-"+strconv.FormatUint(m+2, 10))
			}
		} else {
			pool = append(pool, "18446744073709551616")
		}
		if kind[0] == 'u' {
			pool = append(pool, "-1")
		}
	}
	return pool[r.Intn(len(pool))], true
}

func (g *docGen) kidNS(k sKid, par string) string {
	switch k.S {
	case "=":
		return par
	case "*":
		if par == nsSCTE || par == nsSCTE6 {
			if g.r.Intn(20) != 0 {
				return par
			}
		}
		return []string{nsSCTE, nsSCTE6}[g.r.Intn(2)]
	}
	return k.S
}

func (g *docGen) reachMap() {
	g.way = map[string]bool{g.o.focus: true}
	for ch := true; ch; {
		ch = false
		for t, ty := range g.sch {
			if g.way[t] {
				continue
			}
			for _, k := range ty.Kids {
				if g.way[k.T] {
					g.way[t] = true
					ch = true
				}
			}
		}
	}
}

// a namespace that cannot be written as it is
const oddNS = "a&amp;b<\"'>/é"

func (g *docGen) node(typ, s, n string, depth int) *gnode {
	r := g.r
	ty := g.sch[typ]
	g.n++
	x := &gnode{S: s, N: n, typ: typ}
	for _, a := range ty.Attrs {
		if r.Float64() < g.o.pAttr {
			v := g.value(a.K)
			if g.o.bad > 0 && r.Float64() < g.o.bad {
				if b, ok := g.badValue(a.K); ok {
					v = b
					g.bad++
				}
			}
			x.A = append(x.A, gattr{a.S, a.N, v})
		}
	}
	r.Shuffle(len(x.A), func(i, j int) { x.A[i], x.A[j] = x.A[j], x.A[i] })
	if ty.Any {
		for r.Float64() < g.o.unknownAny {
			ns := []string{"", "", "urn:x", "urn:y&z", oddNS, "http://www.w3.org/1999/xlink", s, s, "urn:mpeg:dash:schema:mpd:2011", "http://www.scte.org/schemas/35"}[r.Intn(10)]
			if r.Intn(4) == 0 { // prefixes made of them would be taken, reserved or no names
				ns = []string{xmlNS, xmlNS, "http://www.w3.org/2001/XMLSchema-instance", "http://a/xml", "http://b/xmlns", "http://c/xlink", "http://d/1d", "http://e/é", "http://f/a:b", "urn:q/scte214", "http://g/x/", "x", "http://h/XMLns", "_1", "a/_1"}[r.Intn(15)]
			}
			nm := []string{"zza", "zzb", "zz-c", "zzé", "xmlns", "xml"}[r.Intn(6)]
			dup := ns == "" && nm == "xmlns" // a declaration
			for _, a := range x.A {
				dup = dup || a.S == ns && a.N == nm
			}
			if !dup {
				x.A = append(x.A, gattr{ns, nm, g.str(true)})
			}
		}
	}
	if ty.Text == "raw" {
		x.Raw = true
		g.rawContent(x, 0)
		return x
	}
	for _, k := range ty.Kids {
		p := g.o.pKid
		if g.n > g.o.budget || depth >= g.o.maxDepth {
			p = 0
		}
		if g.o.focus != "" && g.way[k.T] && depth < 9 && r.Intn(3) > 0 && g.n < 2*g.o.budget {
			p = 1
		}
		if r.Float64() >= p {
			continue
		}
		cnt := 1
		if k.Many {
			cnt += r.Intn(3)
			if g.o.bigN && r.Intn(12) == 0 {
				cnt += 120
			}
		}
		for i := 0; i < cnt && (i == 0 || g.n < 3*g.o.budget || cnt > 100 && g.n < 300); i++ {
			x.K = append(x.K, g.node(k.T, g.kidNS(k, s), k.N, depth+1))
		}
	}
	if r.Intn(2) == 0 { // interleave kinds, keeping the order inside a kind irrelevant
		r.Shuffle(len(x.K), func(i, j int) { x.K[i], x.K[j] = x.K[j], x.K[i] })
	}
	if ty.Text == "text" && (len(x.K) == 0 && r.Intn(5) > 0 || len(x.K) > 0 && g.o.mixed && r.Intn(3) == 0) {
		x.T = g.str(true)
	}
	return x
}

// foreign content of an Ext element
func (g *docGen) rawContent(x *gnode, depth int) {
	r := g.r
	if r.Intn(3) == 0 {
		x.T = g.str(true)
	}
	n := r.Intn(3)
	if depth > 2 {
		n = 0
	}
	for i := 0; i < n; i++ {
		k := &gnode{S: []string{"urn:e1", "urn:e2", ""}[r.Intn(3)], N: []string{"e", "Ext", "Period", "f-é"}[r.Intn(4)]}
		if r.Intn(2) == 0 {
			k.A = append(k.A, gattr{[]string{"", "urn:e1", "urn:e3"}[r.Intn(3)], "v", g.str(true)})
		}
		g.rawContent(k, depth+1)
		x.K = append(x.K, k)
	}
}

func (g *docGen) doc() *gnode {
	g.n, g.bad = 0, 0
	if g.o.focus != "" {
		g.reachMap()
	}
	s := nsDASH
	switch g.r.Intn(12) {
	case 0:
		s = "urn:mpeg:dash:schema:mpd:2011:x&y"
	case 1:
		s = ""
	}
	return g.node("MPD", s, "MPD", 0)
}

// ------------------------------------------------------------- spelling

type spell struct {
	r *rand.Rand
	b strings.Builder
	o spellOpt
}
type spellOpt struct {
	plain    bool    // default namespace, declarations at the root
	noise    float64 // unknown markup (probability per place)
	homonym  float64
	sch      schemaT
	doctype  bool
	outerExt float64
	nNoise   int
	nHom     int
}

type binding struct{ pre, ns string }

var prefixPool = []string{"a", "b", "ns1", "xlink", "dash", "scte35", "cenc", "scte214", "up", "schemas", "_p", "é", "x-y.z", "mspr", "XSI", "_xmlns", "x"}

func spellDoc(r *rand.Rand, g *gnode, o *spellOpt) string {
	s := &spell{r: r, o: *o}
	if r.Intn(2) == 0 || o.plain {
		s.b.WriteString([]string{"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0' encoding='utf-8' standalone=\"yes\" ?>", "<?xml version=\"1.0\"?>\r\n"}[r.Intn(3)])
	}
	s.misc(0.2)
	if o.doctype && r.Intn(2) == 0 {
		s.b.WriteString([]string{"<!DOCTYPE MPD>", "<!DOCTYPE MPD SYSTEM \"x.dtd\">", "<!DOCTYPE MPD [<!ELEMENT MPD (#PCDATA)> <!-- > --> <!ENTITY e \"a>b\">]>"}[r.Intn(3)])
		s.misc(0.3)
	}
	var scope []binding
	var decl []binding
	if s.o.plain || r.Intn(3) > 0 { // declarations at the root
		seen := map[string]bool{}
		var walk func(n *gnode)
		walk = func(n *gnode) {
			for _, a := range n.A {
				seen[a.S] = true
			}
			seen[n.S] = true
			if n.Raw {
				return
			}
			for _, k := range n.K {
				walk(k)
			}
		}
		walk(g)
		used := map[string]bool{}
		if g.S != "" && r.Intn(4) > 0 {
			decl = append(decl, binding{"", g.S})
		}
		for _, ns := range []string{nsDASH, nsSCTE, nsSCTE6, "http://www.w3.org/1999/xlink", "http://www.w3.org/2001/XMLSchema-instance", "urn:mpeg:cenc:2013",
			"urn:microsoft:playready", "urn:scte:dash:scte214-extensions", "https://dashif.org/CPS", "urn:marlin:mas:1-0:services:schemas:mpd", "urn:mpeg:dash:schema:urlparam:2014", "urn:mpeg:dash:schema:urlparam:2016", "urn:x", "urn:y&z", oddNS} {
			if !seen[ns] && r.Intn(6) > 0 {
				continue
			}
			p := prefixPool[r.Intn(len(prefixPool))]
			if used[p] {
				continue
			}
			used[p] = true
			decl = append(decl, binding{p, ns})
		}
	}
	s.elem(g, scope, decl, false, g.typ)
	s.misc(0.2)
	*o = s.o
	return s.b.String()
}

func (s *spell) ws() string {
	return []string{"", "", " ", "\n", "\r\n\t", "  "}[s.r.Intn(6)]
}

func (s *spell) misc(p float64) {
	s.b.WriteString(s.ws())
	if s.o.plain {
		return
	}
	for s.r.Float64() < p {
		s.b.WriteString([]string{"<!-- c -->", "<!--<Period id=\"x\">&-->", "<?pi?>", "<?pi a=\"<b>\" ?>", "<!---->", "<?xml-stylesheet href=\"a\"?>"}[s.r.Intn(6)])
		s.b.WriteString(s.ws())
	}
}

func lookup(scope []binding, pre string) string {
	for i := len(scope) - 1; i >= 0; i-- {
		if scope[i].pre == pre {
			return scope[i].ns
		}
	}
	return ""
}

// elem spells one element.  raw: inside Ext (local declarations only, unless
// outerExt allows the use of declarations made outside).
func (s *spell) elem(n *gnode, outer []binding, decl []binding, raw bool, typ string) {
	r := s.r
	scope := append([]binding{}, outer...)
	declared := map[string]bool{}
	var decls []binding
	bind := func(pre, ns string) {
		scope = append(scope, binding{pre, ns})
		decls = append(decls, binding{pre, ns})
		declared[pre] = true
	}
	for _, d := range decl {
		bind(d.pre, d.ns)
	}
	if !s.o.plain && !raw && r.Intn(25) == 0 { // a useless or shadowing declaration
		p := prefixPool[r.Intn(len(prefixPool))]
		if r.Intn(5) == 0 && n.S != "" {
			p = ""
		}
		if !declared[p] {
			bind(p, []string{nsDASH, nsSCTE, "urn:unused", "urn:x"}[r.Intn(4)])
		}
	}
	inScope := func(ns string, attr bool) []string {
		var ps []string
		seen := map[string]bool{}
		for i := len(scope) - 1; i >= 0; i-- {
			b := scope[i]
			if seen[b.pre] {
				continue
			}
			seen[b.pre] = true
			if b.ns == ns && !(attr && b.pre == "") {
				ps = append(ps, b.pre)
			}
		}
		if ns == "" && !attr && !seen[""] {
			ps = append(ps, "")
		}
		return ps
	}
	used := map[string]bool{} // prefixes this tag relies on
	pick := func(ns string, attr bool) string {
		if ns == xmlNS {
			return "xml"
		}
		ps := inScope(ns, attr)
		if len(ps) > 0 && (s.o.plain || r.Intn(8) > 0 || ns == "") {
			p := ps[r.Intn(len(ps))]
			used[p] = true
			return p
		}
		if ns == "" { // element in no namespace below a default namespace
			bind("", "")
			used[""] = true
			return ""
		}
		if !attr && !declared[""] && !used[""] && r.Intn(3) > 0 {
			bind("", ns)
			used[""] = true
			return ""
		}
		for {
			p := prefixPool[r.Intn(len(prefixPool))]
			if s.r.Intn(4) == 0 {
				p += strconv.Itoa(r.Intn(9))
			}
			if declared[p] || used[p] {
				continue
			}
			bind(p, ns)
			used[p] = true
			return p
		}
	}
	q := func(p, l string) string {
		if p == "" {
			return l
		}
		return p + ":" + l
	}
	name := q(pick(n.S, false), n.N)
	type oa struct{ q, v string }
	var as []oa
	for _, a := range n.A {
		p := ""
		if a.S != "" {
			p = pick(a.S, true)
		}
		as = append(as, oa{q(p, a.N), a.V})
	}
	ty := s.o.sch[typ]
	if ty != nil && !raw && (s.o.noise > 0 || s.o.homonym > 0) && !ty.Any {
		for _, na := range s.noiseAttrs(n, ty) {
			p := ""
			if na.S != "" {
				p = pick(na.S, true)
			}
			as = append(as, oa{q(p, na.N), na.V})
		}
	}
	for _, d := range decls {
		k := "xmlns"
		if d.pre != "" {
			k = "xmlns:" + d.pre
		}
		as = append(as, oa{k, d.ns})
	}
	if !s.o.plain {
		r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	}
	s.b.WriteString("<" + name)
	for _, a := range as {
		sp := " "
		if !s.o.plain && r.Intn(20) == 0 {
			sp = []string{"\n", "\t", " \r\n "}[r.Intn(3)]
		}
		eq := "="
		if !s.o.plain && r.Intn(30) == 0 {
			eq = []string{" =", "= ", "\n=\t"}[r.Intn(3)]
		}
		s.b.WriteString(sp + a.q + eq + s.quote(a.v))
	}
	if !s.o.plain && r.Intn(20) == 0 {
		s.b.WriteString(" ")
	}
	noiseHere := ty != nil && !raw && s.o.noise > 0 && ty.Text != "raw"
	if len(n.K) == 0 && n.T == "" && r.Intn(2) == 0 && !noiseHere {
		s.b.WriteString("/>")
		return
	}
	s.b.WriteString(">")
	childRaw := raw || n.Raw
	childScope := scope
	if n.Raw && !raw {
		if r.Float64() < s.o.outerExt {
			childScope = scope
		} else {
			childScope = nil
			if lookup(scope, "") != "" {
				// the content must rely on no outer declaration, not even the
				// default one: elements in no namespace get xmlns=""
				childScope = []binding{{"", "\x00outer"}}
			}
		}
	}
	if n.T != "" {
		s.text(n.T, childRaw)
	}
	gap := func() {
		if n.T != "" && (len(n.K) == 0 || r.Intn(2) == 0) {
			return
		}
		if ty != nil && ty.Text == "text" && len(n.K) == 0 {
			return // white space is text here
		}
		if raw || n.Raw {
			return
		}
		s.misc(0.03)
	}
	noise := func() {
		if noiseHere {
			for r.Float64() < s.o.noise {
				s.noiseElem(n, ty, childScope)
				gap()
			}
		}
		if ty != nil && !raw && s.o.homonym > 0 && ty.Text != "raw" && r.Float64() < s.o.homonym {
			s.homElem(n, ty, childScope)
		}
	}
	gap()
	noise()
	for _, k := range n.K {
		kt := ""
		if ty != nil {
			for _, sk := range ty.Kids {
				if sk.N == k.N && (sk.S == k.S || sk.S == "=" && k.S == n.S || sk.S == "*" && (k.S == nsSCTE || k.S == nsSCTE6)) {
					kt = sk.T
				}
			}
		}
		s.elem(k, childScope, nil, childRaw, kt)
		gap()
		noise()
	}
	s.b.WriteString("</" + name)
	if !s.o.plain && r.Intn(20) == 0 {
		s.b.WriteString(" ")
	}
	s.b.WriteString(">")
}

func (s *spell) quote(v string) string {
	q := byte('"')
	if s.r.Intn(4) == 0 {
		q = '\''
	}
	var b strings.Builder
	b.WriteByte(q)
	for _, c := range v {
		switch {
		case c == '<':
			b.WriteString([]string{"&lt;", "&#60;", "&#x3C;"}[s.r.Intn(3)])
		case c == '&':
			b.WriteString([]string{"&amp;", "&#38;", "&#x26;", "&#x0026;"}[s.r.Intn(4)])
		case c == rune(q):
			b.WriteString([]string{"&quot;", "&#34;"}[s.r.Intn(2)])
			if q == '\'' {
				str := b.String()
				i := strings.LastIndex(str, "&")
				b.Reset()
				b.WriteString(str[:i] + []string{"&apos;", "&#39;"}[s.r.Intn(2)])
			}
		case c == '\n' || c == '\t' || c == '\r':
			if s.r.Intn(2) == 0 {
				fmt.Fprintf(&b, "&#%d;", c)
			} else {
				b.WriteRune(c)
			}
		case s.r.Intn(60) == 0 && !s.o.plain:
			fmt.Fprintf(&b, []string{"&#%d;", "&#x%x;", "&#x%X;", "&#00%d;"}[s.r.Intn(4)], c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte(q)
	return b.String()
}

func (s *spell) text(v string, raw bool) {
	r := s.r
	for len(v) > 0 {
		// a piece
		n := 1 + r.Intn(len(v))
		if s.o.plain || r.Intn(3) > 0 {
			n = len(v)
		}
		for n < len(v) && v[n]&0xC0 == 0x80 {
			n++
		}
		p := v[:n]
		v = v[n:]
		if r.Intn(6) == 0 && !strings.Contains(p, "]]>") && !(strings.HasSuffix(p, "]") && len(v) > 0) && !s.o.plain {
			s.b.WriteString("<![CDATA[" + p + "]]>")
			continue
		}
		for i, c := range p {
			switch {
			case c == '<':
				s.b.WriteString([]string{"&lt;", "&#60;"}[r.Intn(2)])
			case c == '&':
				s.b.WriteString([]string{"&amp;", "&#x26;"}[r.Intn(2)])
			case c == '>' && (r.Intn(2) == 0 || strings.HasSuffix(s.b.String(), "]") || i > 0 && p[i-1] == ']'):
				s.b.WriteString("&gt;")
			case c == '\r' && r.Intn(2) == 0:
				s.b.WriteString("&#13;")
			case r.Intn(60) == 0 && !s.o.plain:
				fmt.Fprintf(&s.b, []string{"&#%d;", "&#x%x;"}[r.Intn(2)], c)
			default:
				s.b.WriteRune(c)
			}
		}
		if len(v) > 0 && r.Intn(4) == 0 && !raw {
			s.b.WriteString([]string{"<!--x-->", "<?p?>"}[r.Intn(2)])
		}
	}
}

// --------------------------------------------------------- unknown markup

func (s *spell) noiseAttrs(n *gnode, ty *sType) []gattr {
	var out []gattr
	has := func(ns, nm string) bool {
		for _, a := range append(append([]gattr{}, n.A...), out...) {
			if a.S == ns && a.N == nm {
				return true
			}
		}
		for _, a := range ty.Attrs {
			if a.S == ns && a.N == nm {
				return true
			}
		}
		return false
	}
	local := func(nm string) bool {
		for _, a := range ty.Attrs {
			if a.S == "" && a.N == nm {
				return true
			}
		}
		return false
	}
	r := s.r
	for r.Float64() < s.o.noise {
		ns := []string{"", "urn:noise", nsDASH, "http://www.w3.org/1999/xlink", nsSCTE, xmlNS}[r.Intn(6)]
		nm := []string{"zzz", "id", "duration", "Period", "lang", "href", "xmlnsx", "type", "ID", "schemeIdUri", "base"}[r.Intn(11)]
		if has(ns, nm) || local(nm) || ns == xmlNS && nm != "lang" && nm != "base" {
			continue
		}
		s.o.nNoise++
		out = append(out, gattr{ns, nm, []string{"", "v", "not a number", "<&\"'", "\n", "12"}[r.Intn(6)]})
	}
	if s.o.homonym > 0 && len(ty.Attrs) > 0 && r.Float64() < s.o.homonym {
		a := ty.Attrs[r.Intn(len(ty.Attrs))]
		if a.S == "" && !has("urn:hom", a.N) {
			s.o.nHom++
			v := "x"
			if r.Intn(2) == 0 {
				v = "1"
			}
			out = append(out, gattr{"urn:hom", a.N, v})
		}
	}
	return out
}

// an element that the schema does not define here; its content is arbitrary
// and may contain elements and attributes with known names
func (s *spell) noiseElem(n *gnode, ty *sType, scope []binding) {
	r := s.r
	s.o.nNoise++
	known := map[string]bool{}
	for _, k := range ty.Kids {
		known[k.N] = true
	}
	for {
		nm := []string{"zzz", "Period", "AdaptationSet", "Representation", "BaseURL", "MPD", "S", "Ext", "Label", "Event", "Signal", "period", "PeriodX", "é"}[r.Intn(14)]
		if known[nm] {
			continue
		}
		x := &gnode{S: []string{n.S, n.S, "urn:noise", "", nsDASH, nsSCTE}[r.Intn(6)], N: nm}
		s.fillNoise(x, ty, 0)
		if r.Intn(150) == 0 {
			// far deeper than any document; the names are known ones
			top := x
			for i := 200 + r.Intn(120); i > 0; i-- {
				k := &gnode{S: x.S, N: top.N}
				x.K = append(x.K, k)
				x = k
			}
			s.fillNoise(x, ty, 0)
			x = top
		}
		save := s.o.noise
		s.o.noise = 0
		s.elem(x, scope, nil, false, "")
		s.o.noise = save
		return
	}
}

func (s *spell) fillNoise(x *gnode, ty *sType, depth int) {
	r := s.r
	for i := r.Intn(3); i > 0; i-- {
		a := gattr{"", []string{"id", "duration", "zzz", "start", "bandwidth", "href"}[r.Intn(6)], []string{"", "bad", "PT1S", "5"}[r.Intn(4)]}
		dup := false
		for _, b := range x.A {
			dup = dup || b.N == a.N
		}
		if !dup {
			x.A = append(x.A, a)
		}
	}
	if r.Intn(3) == 0 {
		x.T = []string{"text", "  ", "]]", "<&>", "123"}[r.Intn(5)]
	}
	if depth > 4 {
		return
	}
	for i := r.Intn(4 - min(depth, 3)); i > 0; i-- {
		nm := []string{"zzz", "Period", "AdaptationSet", "BaseURL", "MPD", "S", "ContentProtection", x.N}[r.Intn(8)]
		if ty != nil && len(ty.Kids) > 0 && r.Intn(2) == 0 {
			nm = ty.Kids[r.Intn(len(ty.Kids))].N // a name that is known where the noise is
		}
		k := &gnode{S: []string{x.S, x.S, nsDASH, "urn:noise2", ""}[r.Intn(5)], N: nm}
		s.fillNoise(k, ty, depth+1)
		x.K = append(x.K, k)
	}
}

// an element in a foreign namespace with the local name of a known child
func (s *spell) homElem(n *gnode, ty *sType, scope []binding) {
	var ks []sKid
	for _, k := range ty.Kids {
		if k.S == "=" && k.Many {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return
	}
	s.o.nHom++
	k := ks[s.r.Intn(len(ks))]
	s.elem(&gnode{S: "urn:hom", N: k.N}, scope, nil, false, "")
}
