package main

// The referee: a small strict XML 1.0 + Namespaces parser that shares no code
// with the library.  It projects documents to the trees the specification
// talks about.  (Its own tokens are judged against Xml.tla by the C17 check.)

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

type rattr struct {
	S string   `json:"s"`
	N string   `json:"n"`
	V string   `json:"v"`
	C []int    `json:"c"` // the codes of V, when V can be a number, boolean or duration
	W []string `json:"w"` // the words of V, when it has white space
}

type rnode struct {
	S string   `json:"s"`
	N string   `json:"n"`
	A []rattr  `json:"a"`
	K []*rnode `json:"k"`
	T string   `json:"t"` // all character data directly in the element
	W bool     `json:"w"` // T is white space only
	X string   `json:"x"` // canonical form of the whole content (Ext elements only)
	I bool     `json:"i"` // Ext only: the content uses declarations made outside the element

	parent *rnode
	pre    string // prefix used
	depth  int
	canon  strings.Builder
	inner  string  // the source between the tags
	seq    []rcont // the content in order
}

type rcont struct {
	n       *rnode
	comment bool
	t       string
}

type refparser struct {
	s       string
	i       int
	scopes  []map[string]string // one per open element
	stk     []*rnode
	root    *rnode
	decl    bool
	nserr   string
	lenient bool
	evs     []refEvent // token events for C17 (when wanted)
	events  bool
	oddName bool // a name whose characters only some editions of XML 1.0 allow
}

type refEvent struct {
	K string // "start" "end" "text" "comment" "pi" "dir"
	S string
	N string
	V string
	A []rattr
}

type refErr struct {
	what string
	pos  int
}

func (e *refErr) Error() string { return fmt.Sprintf("%s at byte %d", e.what, e.pos) }

func (p *refparser) fail(f string, a ...any) { panic(&refErr{fmt.Sprintf(f, a...), p.i}) }

func isXMLChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

func isNameStart(r rune) bool {
	return r == ':' || r == '_' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' ||
		r >= 0xC0 && r <= 0xD6 || r >= 0xD8 && r <= 0xF6 || r >= 0xF8 && r <= 0x2FF || r >= 0x370 && r <= 0x37D ||
		r >= 0x37F && r <= 0x1FFF || r >= 0x200C && r <= 0x200D || r >= 0x2070 && r <= 0x218F || r >= 0x2C00 && r <= 0x2FEF ||
		r >= 0x3001 && r <= 0xD7FF || r >= 0xF900 && r <= 0xFDCF || r >= 0xFDF0 && r <= 0xFFFD || r >= 0x10000 && r <= 0xEFFFF
}

func isNameChar(r rune) bool {
	return isNameStart(r) || r == '-' || r == '.' || r >= '0' && r <= '9' || r == 0xB7 || r >= 0x300 && r <= 0x36F || r >= 0x203F && r <= 0x2040
}

// inAllEditions: a name character in every edition of XML 1.0 (a safe subset)
func inAllEditions(r rune) bool {
	return r < 0x80 || r == 0xB7 || r >= 0xC0 && r <= 0xFF || r >= 0x391 && r <= 0x3C9 || r >= 0x410 && r <= 0x44F ||
		r >= 0x3041 && r <= 0x3094 || r >= 0x4E00 && r <= 0x9FA5 || r >= 0xAC00 && r <= 0xD7A3
}

func isWS(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }

func allWS(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isWS(s[i]) {
			return false
		}
	}
	return true
}

func (p *refparser) has(x string) bool { return strings.HasPrefix(p.s[p.i:], x) }
func (p *refparser) eof() bool         { return p.i >= len(p.s) }
func (p *refparser) ws() bool {
	j := p.i
	for !p.eof() && isWS(p.s[p.i]) {
		p.i++
	}
	return p.i > j
}

func (p *refparser) name() string {
	j := p.i
	for !p.eof() {
		r, n := utf8.DecodeRuneInString(p.s[p.i:])
		if p.i == j && !isNameStart(r) || !isNameChar(r) {
			break
		}
		p.oddName = p.oddName || !inAllEditions(r)
		p.i += n
	}
	if p.i == j {
		p.fail("name expected")
	}
	return p.s[j:p.i]
}

func (p *refparser) until(end, what string) string {
	k := strings.Index(p.s[p.i:], end)
	if k < 0 {
		p.i = len(p.s)
		p.fail("unterminated %s", what)
	}
	t := p.s[p.i : p.i+k]
	p.i += k + len(end)
	return t
}

// reference at p.i ('&')
func (p *refparser) ref() string {
	p.i++
	if p.has("#") {
		p.i++
		base := 10
		if p.has("x") {
			base = 16
			p.i++
		}
		v, n := 0, 0
		for !p.eof() {
			c := p.s[p.i]
			d := -1
			switch {
			case c >= '0' && c <= '9':
				d = int(c - '0')
			case base == 16 && c >= 'a' && c <= 'f':
				d = int(c-'a') + 10
			case base == 16 && c >= 'A' && c <= 'F':
				d = int(c-'A') + 10
			}
			if d < 0 {
				break
			}
			v = v*base + d
			if v > 0x110000 {
				v = 0x110000
			}
			n++
			p.i++
		}
		if n == 0 || !p.has(";") || !isXMLChar(rune(v)) {
			p.fail("bad character reference")
		}
		p.i++
		return string(rune(v))
	}
	n := p.name()
	if !p.has(";") {
		p.fail("reference without ;")
	}
	p.i++
	switch n {
	case "lt":
		return "<"
	case "gt":
		return ">"
	case "amp":
		return "&"
	case "apos":
		return "'"
	case "quot":
		return "\""
	}
	p.fail("undeclared entity %s", n)
	return ""
}

func (p *refparser) attvalue() string {
	if p.eof() || p.s[p.i] != '"' && p.s[p.i] != '\'' {
		p.fail("quote expected")
	}
	q := p.s[p.i]
	p.i++
	var b strings.Builder
	for {
		if p.eof() {
			p.fail("unterminated attribute value")
		}
		c := p.s[p.i]
		switch {
		case c == q:
			p.i++
			return b.String()
		case c == '<':
			p.fail("< in attribute value")
		case c == '&':
			b.WriteString(p.ref())
		case isWS(c):
			if p.has("\r\n") {
				p.i++
			}
			b.WriteByte(' ')
			p.i++
		default:
			b.WriteByte(c)
			p.i++
		}
	}
}

func splitQ(p *refparser, q string) (string, string) {
	i := strings.IndexByte(q, ':')
	if i < 0 {
		return "", q
	}
	if i == 0 || i == len(q)-1 || strings.IndexByte(q[i+1:], ':') >= 0 {
		p.nsfail("bad qualified name " + q)
		return "", q
	}
	r, _ := utf8.DecodeRuneInString(q[i+1:])
	if !isNameStart(r) {
		p.nsfail("bad qualified name " + q)
	}
	return q[:i], q[i+1:]
}

func (p *refparser) nsfail(s string) {
	if p.nserr == "" {
		p.nserr = s
	}
}

const (
	xmlNS   = "http://www.w3.org/XML/1998/namespace"
	xmlnsNS = "http://www.w3.org/2000/xmlns/"
)

// resolve returns the namespace and the depth of the declaration (-1: none needed)
func (p *refparser) resolve(pre string) (string, int) {
	if pre == "xml" {
		return xmlNS, -1
	}
	for d := len(p.scopes) - 1; d >= 0; d-- {
		if u, ok := p.scopes[d][pre]; ok {
			return u, d
		}
	}
	if pre != "" {
		p.nsfail("undeclared prefix " + pre)
		return "?" + pre, 0
	}
	return "", 0
}

// note that the content of an open Ext element used a declaration of depth d
func (p *refparser) used(depth, d int) {
	if d < 0 {
		return
	}
	for _, n := range p.stk {
		if n.N == "Ext" && n.depth < depth && d <= n.depth {
			n.I = true
		}
	}
}

func mkattr(s, n, v string) rattr { return rattr{s, n, v, attrCodes(v), attrWords(v)} }

func attrWords(v string) []string {
	if len(v) > 400 || !strings.ContainsAny(v, " \t\r\n") {
		return []string{}
	}
	return append(strings.FieldsFunc(v, func(r rune) bool { return r < 128 && isWS(byte(r)) }), "")
}

func attrCodes(v string) []int {
	if len(v) == 0 || len(v) > 400 {
		return []int{}
	}
	switch c := v[0]; {
	case c >= '0' && c <= '9', c == '+', c == '-', c == '.', c == 'P', c == 'I', c == 't', c == 'f', c == 'T', c == 'F', isWS(c):
	default:
		return []int{}
	}
	o := make([]int, len(v))
	for i := 0; i < len(v); i++ {
		c := v[i]
		if !(c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '+' || c == '-' || c == '.' || isWS(c)) {
			return []int{}
		}
		o[i] = int(c)
	}
	return o
}

func (p *refparser) misc(inRoot bool) bool {
	switch {
	case p.has("<!--"):
		p.i += 4
		k := strings.Index(p.s[p.i:], "--")
		if k < 0 {
			p.i = len(p.s)
			p.fail("unterminated comment")
		}
		t := p.s[p.i : p.i+k]
		p.i += k
		if !p.has("-->") {
			p.fail("-- in comment")
		}
		p.i += 3
		p.ev(refEvent{K: "comment", V: nl(t)})
		if len(p.stk) > 0 {
			n := p.stk[len(p.stk)-1]
			n.seq = append(n.seq, rcont{comment: true, t: nl(t)})
		}
		return true
	case p.has("<?"):
		p.i += 2
		t := p.name()
		if strings.EqualFold(t, "xml") {
			p.fail("misplaced XML declaration")
		}
		if strings.Contains(t, ":") {
			p.nsfail("colon in target")
		}
		if p.has("?>") {
			p.i += 2
			p.ev(refEvent{K: "pi", N: t})
			return true
		}
		if !p.ws() {
			p.fail("space expected after target")
		}
		v := p.until("?>", "processing instruction")
		p.ev(refEvent{K: "pi", N: t, V: nl(v)})
		return true
	}
	return false
}

func nl(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

func (p *refparser) ev(e refEvent) {
	if p.events {
		p.evs = append(p.evs, e)
	}
}

func (p *refparser) xmldecl() {
	if !(p.has("<?xml") && len(p.s) > p.i+5 && isWS(p.s[p.i+5])) {
		return
	}
	p.decl = true
	p.i += 5
	pseudo := func(name string, ok func(string) bool, required bool) {
		save := p.i
		if !p.ws() || !p.has(name) {
			p.i = save
			if required {
				p.fail("%s expected", name)
			}
			return
		}
		p.i += len(name)
		p.ws()
		if !p.has("=") {
			p.fail("= expected")
		}
		p.i++
		p.ws()
		if p.eof() || p.s[p.i] != '"' && p.s[p.i] != '\'' {
			p.fail("quote expected")
		}
		q := p.s[p.i : p.i+1]
		p.i++
		if v := p.until(q, name); !ok(v) {
			p.fail("bad %s", name)
		}
	}
	pseudo("version", func(v string) bool { return v == "1.0" }, true)
	pseudo("encoding", func(v string) bool { return strings.EqualFold(v, "utf-8") }, false)
	pseudo("standalone", func(v string) bool { return v == "yes" || v == "no" }, false)
	p.ws()
	if !p.has("?>") {
		p.fail("?> expected")
	}
	p.i += 2
}

// doctype: skipped, with balanced brackets and quoted strings
func (p *refparser) doctype() {
	p.i += len("<!DOCTYPE")
	if !p.ws() {
		p.fail("space expected")
	}
	p.name()
	depth := 0
	for {
		if p.eof() {
			p.fail("unterminated DOCTYPE")
		}
		c := p.s[p.i]
		switch {
		case p.has("<!--"):
			p.misc(false)
			continue
		case c == '"' || c == '\'':
			p.i++
			p.until(string(c), "literal")
			continue
		case c == '[' || c == '<':
			depth++
		case c == ']':
			depth--
		case c == '>':
			if depth == 0 {
				p.i++
				return
			}
			depth--
		}
		p.i++
	}
}

func (p *refparser) element() {
	start := p.i
	p.i++
	q := p.name()
	type qa struct{ q, v string }
	var as []qa
	for {
		sp := p.ws()
		if p.eof() {
			p.fail("unterminated tag")
		}
		if p.has("/>") || p.has(">") {
			break
		}
		if !sp {
			p.fail("space expected before attribute")
		}
		n := p.name()
		p.ws()
		if !p.has("=") {
			p.fail("= expected")
		}
		p.i++
		p.ws()
		as = append(as, qa{n, p.attvalue()})
	}
	_ = start
	seen := map[string]bool{}
	scope := map[string]string{}
	for _, a := range as {
		if seen[a.q] {
			p.fail("duplicate attribute %s", a.q)
		}
		seen[a.q] = true
		if a.q == "xmlns" {
			scope[""] = a.v
			if a.v == xmlNS || a.v == xmlnsNS {
				p.nsfail("reserved namespace")
			}
		} else if strings.HasPrefix(a.q, "xmlns:") {
			pre := a.q[6:]
			if a.v == "" {
				p.nsfail("empty namespace for prefix " + pre)
			}
			if pre == "xmlns" || pre == "xml" && a.v != xmlNS || a.v == xmlnsNS || a.v == xmlNS && pre != "xml" {
				p.nsfail("reserved prefix or namespace")
			}
			if pre == "" || strings.Contains(pre, ":") {
				p.nsfail("bad prefix declaration")
			}
			scope[pre] = a.v
		}
	}
	p.scopes = append(p.scopes, scope)
	depth := len(p.scopes) - 1
	n := &rnode{A: []rattr{}, K: []*rnode{}, depth: depth}
	pre, loc := splitQ(p, q)
	var d int
	n.S, d = p.resolve(pre)
	p.used(depth, d)
	n.N, n.pre = loc, pre
	names := map[string]bool{}
	for _, a := range as {
		if a.q == "xmlns" || strings.HasPrefix(a.q, "xmlns:") {
			continue
		}
		pre, loc := splitQ(p, a.q)
		ns := ""
		if pre != "" {
			var d int
			ns, d = p.resolve(pre)
			p.used(depth, d)
		}
		if names[ns+" "+loc] {
			p.nsfail("duplicate attribute " + loc)
		}
		names[ns+" "+loc] = true
		n.A = append(n.A, mkattr(ns, loc, a.v))
	}
	if len(p.stk) > 0 {
		n.parent = p.stk[len(p.stk)-1]
		n.parent.K = append(n.parent.K, n)
		n.parent.seq = append(n.parent.seq, rcont{n: n})
	} else {
		p.root = n
	}
	p.ev(refEvent{K: "start", S: n.S, N: n.N, A: n.A})
	p.stk = append(p.stk, n)
	p.canonOpen(n)
	if p.has("/>") {
		p.i += 2
		p.closeTop()
		return
	}
	p.i++
	from := p.i
	p.content()
	n.inner = p.s[from:p.i]
	// at "</"
	p.i += 2
	e := p.name()
	if e != q {
		p.fail("end tag %s for %s", e, q)
	}
	p.ws()
	if !p.has(">") {
		p.fail("> expected")
	}
	p.i++
	p.closeTop()
}

func (p *refparser) closeTop() {
	n := p.stk[len(p.stk)-1]
	p.ev(refEvent{K: "end", S: n.S, N: n.N})
	p.stk = p.stk[:len(p.stk)-1]
	p.scopes = p.scopes[:len(p.scopes)-1]
	n.W = allWS(n.T)
	for _, o := range p.stk {
		if o.N == "Ext" {
			o.canon.WriteString("</>")
		}
	}
	if n.N == "Ext" {
		n.X = n.canon.String()
	}
}

func (p *refparser) canonOpen(n *rnode) {
	for _, o := range p.stk[:len(p.stk)-1] {
		if o.N != "Ext" {
			continue
		}
		b := &o.canon
		fmt.Fprintf(b, "<{%s}%s", n.S, n.N)
		as := append([]rattr{}, n.A...)
		sort.Slice(as, func(i, j int) bool { return as[i].S+" "+as[i].N < as[j].S+" "+as[j].N })
		for _, a := range as {
			fmt.Fprintf(b, " {%s}%s=%q", a.S, a.N, a.V)
		}
		b.WriteString(">")
	}
}

func (p *refparser) chars(t string) {
	p.ev(refEvent{K: "text", V: t})
	n := p.stk[len(p.stk)-1]
	n.T += t
	n.seq = append(n.seq, rcont{t: t})
	for _, o := range p.stk {
		if o.N == "Ext" {
			// adjacent pieces must concatenate
			o.canon.WriteString(strings.NewReplacer("<", "&lt;", "&", "&amp;").Replace(t))
		}
	}
}

func (p *refparser) content() {
	for {
		if p.eof() {
			p.fail("unexpected end of document")
		}
		switch {
		case p.has("</"):
			return
		case p.has("<![CDATA["):
			p.i += 9
			t := p.until("]]>", "CDATA section")
			p.chars(nl(t))
		case p.has("<!--") || p.has("<?"):
			p.misc(true)
		case p.has("<"):
			p.element()
		case p.has("&"):
			p.chars(p.ref())
		default:
			j := p.i
			for !p.eof() && p.s[p.i] != '<' && p.s[p.i] != '&' {
				if p.has("]]>") {
					p.fail("]]> in text")
				}
				p.i++
			}
			p.chars(nl(p.s[j:p.i]))
		}
	}
}

type refDoc struct {
	Root   *rnode
	Decl   bool   // starts with an XML declaration
	NSErr  string // violation of Namespaces in XML, "" if none
	Events []refEvent
	End    int  // where the root element ends
	Odd    bool // names with characters that only some editions of XML 1.0 allow
}

// refParse parses a complete document.
func refParse(s string) (doc *refDoc, err error) { return refParseX(s, false) }

func refParseX(s string, events bool) (doc *refDoc, err error) {
	p := &refparser{s: s, events: events}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(*refErr)
			if !ok {
				panic(r)
			}
			doc, err = nil, e
		}
	}()
	for i, w := 0, 0; i < len(s); i += w {
		var r rune
		r, w = utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w == 1 || !isXMLChar(r) {
			p.i = i
			return nil, &refErr{"invalid character", i}
		}
	}
	if strings.HasPrefix(s, "\ufeff") {
		p.i = 3
	}
	p.xmldecl()
	dt := false
	for {
		p.ws()
		if p.eof() {
			return nil, errors.New("no root element")
		}
		if p.misc(false) {
			continue
		}
		if p.has("<!DOCTYPE") && !dt {
			dt = true
			p.doctype()
			continue
		}
		if !p.has("<") {
			p.fail("text outside the root element")
		}
		break
	}
	p.element()
	end := p.i
	for {
		p.ws()
		if p.eof() {
			break
		}
		if !p.misc(false) {
			p.fail("content after the root element")
		}
	}
	return &refDoc{p.root, p.decl, p.nserr, p.evs, end, p.oddName}, nil
}

func sortStrings(s []string) { sort.Strings(s) }
