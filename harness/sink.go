package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"syscall"

	m "github.com/Eyevinn/dash-mpd/mpd"
	x "github.com/Eyevinn/dash-mpd/xml"
)

type reaction struct {
	A string `json:"a"` // how much of the chunk: none, one, half, butone, all, or upto:N (in total)
	E string `json:"e"`
}

type sinkCall struct {
	Len int    `json:"len"`
	A   int    `json:"a"`
	E   string `json:"e"`
	Pre bool   `json:"pre"`
}

type sinkRec struct {
	ID    string     `json:"id"`
	What  string     `json:"what"`
	Plan  []reaction `json:"plan"`
	Pan   string     `json:"pan"`
	N     int        `json:"n"`
	Calls []sinkCall `json:"calls"`
	Total int        `json:"total"`
	Err   string     `json:"err"`
	Same  bool       `json:"same"`
	Later string     `json:"later"`
}

var sinkErrs = map[string]error{"E1": errors.New("sink failure one"), "E2": errors.New("sink failure two"), "EOF": io.EOF}

// a failure that claims to be temporary
type tempErr struct{ s string }

func (e *tempErr) Error() string   { return e.s }
func (e *tempErr) Temporary() bool { return true }
func (e *tempErr) Timeout() bool   { return true }

// failures of all kinds: what a sink or a reader fails with is its own affair
var failures = []error{
	errors.New("failure one"), errors.New("failure two"), &tempErr{"try again"}, syscall.EAGAIN, io.ErrClosedPipe, syscall.EINTR,
	io.ErrUnexpectedEOF, os.ErrClosed, io.ErrNoProgress, syscall.EPIPE, os.ErrDeadlineExceeded, context.Canceled, errors.New(""),
	&os.PathError{Op: "write", Path: "/x", Err: syscall.ENOSPC}, bufio.ErrBufferFull, fmt.Errorf("wrapped: %w", io.EOF), errors.ErrUnsupported,
}
var failed int

func nextFailure() error {
	failed++
	return failures[failed%len(failures)]
}

func otherFailures() {
	sinkErrs["E1"], sinkErrs["E2"] = nextFailure(), nextFailure()
}

// planSink is an io.Writer that reacts as planned; it keeps what it accepted.
type planSink struct {
	plan  []reaction
	limit int    // accepts no byte past this offset; -1: none
	lerr  string // what it reports there; "" is a short write without an error
	got   []byte
	calls []sinkCall
	want  []byte
}

func (s *planSink) Write(p []byte) (int, error) {
	n, e := len(p), ""
	if j := len(s.calls); j < len(s.plan) {
		switch s.plan[j].A {
		case "none":
			n = 0
		case "one":
			n = min(1, n)
		case "half":
			n /= 2
		case "butone":
			n = max(0, n-1)
		}
		e = s.plan[j].E
	}
	if s.limit >= 0 && len(s.got)+n > s.limit {
		n, e = max(0, s.limit-len(s.got)), s.lerr
	}
	pre := len(s.got) <= len(s.want) && bytes.HasPrefix(s.want[len(s.got):], p[:n])
	s.got = append(s.got, p[:n]...)
	if len(s.calls) < 64 {
		s.calls = append(s.calls, sinkCall{len(p), n, e, pre})
	} else {
		c := &s.calls[63]
		c.Len, c.A, c.Pre = c.Len+len(p), c.A+n, c.Pre && pre
		if c.E == "" {
			c.E = e
		}
	}
	if e != "" {
		return n, sinkErrs[e]
	}
	return n, nil
}

func sinkErr(err error) string {
	if err == nil {
		return ""
	}
	for _, n := range []string{"E1", "E2", "EOF"} {
		if errors.Is(err, sinkErrs[n]) || err == sinkErrs[n] {
			return n
		}
	}
	if errors.Is(err, io.ErrShortWrite) {
		return "short"
	}
	return "other: " + errStr(err)
}

// docOfSize returns an MPD whose output has exactly n bytes.
func docOfSize(n int, indent string, header bool) *m.MPD {
	d := m.NewMPD(m.STATIC_TYPE)
	p := m.NewPeriod()
	p.Id = "p"
	d.AppendPeriod(p)
	for i := 0; i < 3; i++ {
		d.AppendPeriod(&m.Period{Id: fmt.Sprint(i)})
	}
	o, err := d.WriteToString(indent, header)
	if err == nil && len(o) < n {
		p.Id += strings.Repeat("x", n-len(o))
	}
	return d
}

type sinkWay struct {
	name  string
	count bool
	write func(w io.Writer) (int, error)
	whole func() (string, error) // the same written to memory by the library
}

type unwritable struct{ in int }

var errUnwritable = errors.New("cannot be written")

func (u unwritable) MarshalXML(e *x.Encoder, start x.StartElement) error {
	for i := 0; i < u.in; i++ {
		if err := e.EncodeElement(strings.Repeat("y", 50), x.StartElement{Name: x.Name{Local: "a"}}); err != nil {
			return err
		}
	}
	return errUnwritable
}

type holder struct {
	XMLName x.Name `xml:"holder"`
	A       string `xml:"a,attr"`
	U       any    `xml:"u"`
}

type textOf struct{ s string }

func (t textOf) MarshalText() ([]byte, error) { return []byte(t.s), nil }

type attrM struct{ s string }

func (t attrM) MarshalXMLAttr(name x.Name) (x.Attr, error) {
	return x.Attr{Name: name, Value: t.s}, nil
}

type elemM struct{ s string }

func (t elemM) MarshalXML(e *x.Encoder, start x.StartElement) error {
	if err := e.EncodeToken(start); err != nil {
		return err
	}
	for _, tk := range []x.Token{x.CharData(t.s), x.Comment(" c "), x.ProcInst{Target: "pi", Inst: []byte("x")}} {
		if err := e.EncodeToken(tk); err != nil {
			return err
		}
	}
	return e.EncodeToken(start.End())
}

type kid[T any] struct {
	C T `xml:",chardata"`
}

// kindsHolder has fields of all kinds
type kindsHolder struct {
	XMLName x.Name       `xml:"urn:h holder"`
	Pad     string       `xml:"pad,attr"`
	AI      int8         `xml:"ai,attr"`
	AU      uint16       `xml:"au,attr"`
	AF      float64      `xml:"af,attr"`
	AB      bool         `xml:"ab,attr"`
	AY      []byte       `xml:"ay,attr"`
	AT      textOf       `xml:"urn:a at,attr"`
	AM      attrM        `xml:"urn:a am,attr"`
	AS      []string     `xml:"as,attr"`
	AA      []x.Attr     `xml:",any,attr"`
	I       kid[int]     `xml:"i"`
	U       kid[uint8]   `xml:"u"`
	F       kid[float32] `xml:"f"`
	B       kid[bool]    `xml:"b"`
	Y       kid[[]byte]  `xml:"y"`
	A       kid[[3]byte] `xml:"a"`
	S       *kid[string] `xml:"s"`
	T       kid[textOf]  `xml:"t"`
	Many    []string     `xml:"p>q>many"`
	Next    int          `xml:"p>next"`
	M       elemM        `xml:"urn:m m"`
	Any     any          `xml:"any"`
	CD      kidCD        `xml:"cd"`
	Co      kidCo        `xml:"co"`
	In      kidIn        `xml:"in"`
	Long    string       `xml:"urn:l long"`
}

type kidCD struct {
	C string `xml:",cdata"`
}
type kidCo struct {
	C string `xml:",comment"`
}
type kidIn struct {
	C string `xml:",innerxml"`
}

func newKindsHolder(pad int) *kindsHolder {
	return &kindsHolder{
		Pad: strings.Repeat("a", pad), AI: -128, AU: 65535, AF: 1.5, AB: true, AY: []byte("<y>"), AT: textOf{"t&t"}, AM: attrM{"\"m"},
		AS: []string{"s1", "s2"}[:1], AA: []x.Attr{{Name: x.Name{Space: "urn:x", Local: "o"}, Value: "v"}},
		I: kid[int]{-12345}, U: kid[uint8]{255}, F: kid[float32]{0.25}, B: kid[bool]{true}, Y: kid[[]byte]{[]byte("a<b")}, A: kid[[3]byte]{[3]byte{'x', '&', 'z'}},
		S: &kid[string]{"\t<s>"}, T: kid[textOf]{textOf{"]]>"}}, Many: []string{"1", "", "3"}, Next: 7, M: elemM{"mm"}, Any: uint32(12),
		CD: kidCD{"a]]>b"}, Co: kidCo{" no "}, In: kidIn{"<raw>1</raw>"}, Long: strings.Repeat("l<", 40),
	}
}

func stdWays(d *m.MPD, indent string, header bool) []sinkWay {
	ways := []sinkWay{
		{"MPD.Write", true, func(w io.Writer) (int, error) { return d.Write(w, indent, header) }, func() (string, error) { return d.WriteToString(indent, header) }},
		{"WriteXML", true, func(w io.Writer) (int, error) { return m.WriteXML(d, w, indent, header) }, func() (string, error) { return d.WriteToString(indent, header) }},
	}
	if len(d.Periods) > 0 && !header {
		p := d.Periods[0]
		ways = append(ways, sinkWay{"Period.Write", true, func(w io.Writer) (int, error) { return p.Write(w, indent) }, func() (string, error) { return p.WriteToString(indent) }})
	}
	if !header {
		mem := func() (string, error) { return d.WriteToString(indent, false) }
		enc := func(w io.Writer) *x.Encoder {
			e := x.NewEncoder(w)
			e.Indent("", indent)
			return e
		}
		ways = append(ways,
			sinkWay{"Encoder.Encode", false, func(w io.Writer) (int, error) { return 0, enc(w).Encode(d) }, mem},
			sinkWay{"Encoder.Encode, errors looked at in Close", false, func(w io.Writer) (int, error) {
				e := enc(w)
				_ = e.Encode(d)
				return 0, e.Close()
			}, mem})
		// the same with the start element given: an own name, and the one of the type
		start := x.StartElement{Name: x.Name{Space: "urn:x", Local: "other"}, Attr: []x.Attr{{Name: x.Name{Local: "zz"}, Value: "1"}}}
		whole := func() (string, error) {
			var b bytes.Buffer
			err := enc(&b).EncodeElement(d, start)
			return b.String(), err
		}
		ways = append(ways,
			sinkWay{"Encoder.EncodeElement", false, func(w io.Writer) (int, error) { return 0, enc(w).EncodeElement(d, start) }, whole},
			sinkWay{"Encoder.EncodeElement inside an element", false, func(w io.Writer) (int, error) {
				e := enc(w)
				out := x.StartElement{Name: x.Name{Local: "out"}}
				if err := e.EncodeToken(out); err != nil {
					return 0, err
				}
				if err := e.EncodeElement(d, start); err != nil {
					return 0, err
				}
				if err := e.EncodeToken(out.End()); err != nil {
					return 0, err
				}
				return 0, e.Close()
			}, func() (string, error) {
				var b bytes.Buffer
				e := enc(&b)
				out := x.StartElement{Name: x.Name{Local: "out"}}
				_ = e.EncodeToken(out)
				_ = e.EncodeElement(d, start)
				_ = e.EncodeToken(out.End())
				err := e.Close()
				return b.String(), err
			}})
	}
	return ways
}

// tokensWay writes tokens one by one; when quiet only the last error is looked at.
func tokensWay(d *m.MPD, quiet bool) sinkWay {
	var toks []x.Token
	o, _ := d.WriteToString("", false)
	dec := x.NewDecoder(strings.NewReader(o))
	for {
		t, err := dec.Token()
		if err != nil {
			break
		}
		toks = append(toks, x.CopyToken(t))
	}
	write := func(w io.Writer) (int, error) {
		e := x.NewEncoder(w)
		for _, t := range toks {
			if s, ok := t.(x.StartElement); ok { // the encoder declares the namespaces itself
				var as []x.Attr
				for _, a := range s.Attr {
					if a.Name.Local != "xmlns" && a.Name.Space != "xmlns" {
						as = append(as, a)
					}
				}
				s.Attr = as
				t = s
			}
			if err := e.EncodeToken(t); err != nil && !quiet {
				return 0, err
			}
		}
		return 0, e.Close()
	}
	name := "EncodeToken"
	if quiet {
		name += ", errors looked at in Close"
	}
	return sinkWay{name, false, write, func() (string, error) {
		var b bytes.Buffer
		_, err := write(&b)
		return b.String(), err
	}}
}

// wholes caches what a way writes to memory
type wholes map[string]struct {
	s   string
	err error
}

func sinkRun(id string, way sinkWay, cache wholes, key string, plan []reaction, limit int, lerr string) sinkRec {
	rec := sinkRec{ID: id, What: way.name + " " + key, Plan: plan, N: -1, Calls: []sinkCall{}, Same: true}
	if plan == nil {
		rec.Plan = []reaction{}
	}
	k := way.name + key
	c, ok := cache[k]
	if !ok {
		rec.Pan = guard(func() string { return rec.What }, func() { c.s, c.err = way.whole() })
		if rec.Pan != "" {
			return rec
		}
		cache[k] = c
	}
	rec.Total = len(c.s)
	if c.err != nil {
		rec.Total = -1
	}
	otherFailures()
	s := &planSink{plan: plan, limit: limit, lerr: lerr, want: []byte(c.s)}
	rec.Pan = guard(func() string { return rec.What }, func() {
		n, err := way.write(s)
		if way.count {
			rec.N = n
		}
		rec.Err = sinkErr(err)
	})
	if s.calls != nil {
		rec.Calls = s.calls
	}
	if len(s.got) == len(c.s) && c.err == nil {
		rec.Same = string(s.got) == c.s
	}
	return rec
}

// sinkLater: an encoder whose sink failed once reports it for good and writes no more.
func sinkLater(id string, d *m.MPD, limit int, lerr string, steps []int) sinkRec {
	o, err := d.WriteToString("", false)
	rec := sinkRec{ID: id, What: "Encoder used after a failure", Plan: []reaction{}, N: -1, Calls: []sinkCall{}, Same: true, Total: len(o)}
	if err != nil {
		rec.Total = -1
	}
	otherFailures()
	s := &planSink{limit: limit, lerr: lerr, want: []byte(o)}
	rec.Pan = guard(func() string { return rec.What }, func() {
		e := x.NewEncoder(s)
		rec.Err = sinkErr(e.Encode(d))
		s.limit = -1
		at := len(s.got)
		if rec.Err == "" {
			return
		}
		for _, st := range steps {
			var err error
			name := ""
			switch st {
			case 0:
				name, err = "Flush", e.Flush()
			case 1:
				name, err = "Encode", e.Encode(d)
			case 2:
				name, err = "EncodeToken", e.EncodeToken(x.Comment("c"))
				if e2 := e.Flush(); e2 != nil {
					err = e2
				}
			}
			if err == nil && rec.Later == "" {
				rec.Later = name + " after a failure of the sink reports success"
			}
			if len(s.got) > at {
				rec.Later = name + " writes on after a failure of the sink"
			}
		}
		if e.Close() == nil {
			rec.Later = "Close after a failure of the sink reports success"
		}
		if len(s.got) > at {
			rec.Later = "Close writes on after a failure of the sink"
		}
	})
	if len(s.calls) > 0 {
		rec.Calls = s.calls
	}
	return rec
}

func init() {
	register("sink-record", func(args []string) error {
		r := newRng(606)
		w, err := newRecWriter(args[1])
		if err != nil {
			return err
		}
		cache := wholes{}
		id := 0
		put := func(way sinkWay, key string, plan []reaction, limit int, lerr string) {
			id++
			w.put(sinkRun(fmt.Sprintf("sink:%d", id), way, cache, key, plan, limit, lerr))
		}
		// 1. every plan of the specification, over documents that need one to many calls
		type job struct {
			key  string
			ways []sinkWay
		}
		var jobs []job
		hl := len(x.Header)
		for _, n := range []int{600, 4096, 4097, 9000, 20000} {
			for _, header := range []bool{false, true} {
				indent := indentOf(r)
				sz := n
				if header && n == 4097 {
					sz = 4096 + hl
				}
				d := docOfSize(sz, indent, header)
				jobs = append(jobs, job{fmt.Sprintf("%d/%v/%q", n, header, indent), stdWays(d, indent, header)})
			}
		}
		j := 0
		err = readCases(args[0], func(raw []byte) error {
			var c struct {
				Plan []reaction `json:"plan"`
			}
			if err := json.Unmarshal(raw, &c); err != nil {
				return err
			}
			for i, jb := range jobs {
				if len(c.Plan) > 2 && !thorough() && (i+j)%3 != 0 {
					continue
				}
				put(jb.ways[j%len(jb.ways)], jb.key, c.Plan, -1, "")
			}
			j++
			return nil
		})
		if err != nil {
			return err
		}
		if j == 0 {
			return errors.New("no plans")
		}
		// 2. a sink that stops at a byte, for every byte of documents around the sizes of the buffers
		sizes := []int{590, 4095, 4096, 4097, 4096 + hl - 1, 4096 + hl, 4096 + hl + 1, 8191, 8192, 8193, 12288}
		for _, n := range sizes {
			for _, header := range []bool{false, true} {
				d := docOfSize(n, "", header)
				ways := stdWays(d, "", header)
				for k := 0; k <= n; k++ {
					edge := k < hl+3 || k > n-3 || k%4096 < 3 || k%4096 > 4093 || (k-hl+4096)%4096 < 3 || (k-hl+4096)%4096 > 4093
					if !edge && !(n == 590) && r.Intn(scale(40, 4)) != 0 {
						continue
					}
					le := []string{"E1", "", "E2", "EOF"}[r.Intn(4)]
					put(ways[k%len(ways)], fmt.Sprintf("%d/%v", n, header), nil, k, le)
				}
				put(ways[0], fmt.Sprintf("%d/%v", n, header), nil, -1, "")
			}
		}
		// 3. random documents
		for i := 0; i < scale(2000, 15000); i++ {
			d := randomStructGen(r).mpd()
			indent, header := indentOf(r), i%2 == 0
			ways := stdWays(d, indent, header)
			ways = append(ways, tokensWay(d, false), tokensWay(d, true))
			way := ways[r.Intn(len(ways))]
			key := fmt.Sprintf("random %d", i)
			put(way, key, nil, -1, "")
			n := 0
			if c := cache[way.name+key]; c.err == nil {
				n = len(c.s)
			}
			for k := 0; k < 6; k++ {
				put(way, key, nil, r.Intn(n+1), []string{"E1", "", "E2", "EOF"}[r.Intn(4)])
			}
			put(way, key, randPlan(r), -1, "")
			delete(cache, way.name+key)
			id++
			w.put(sinkLater(fmt.Sprintf("sink:%d", id), d, r.Intn(n+1), []string{"E1", ""}[r.Intn(2)], []int{r.Intn(3), r.Intn(3), r.Intn(3)}))
		}
		// 4. values that cannot be written, early and late
		for i := 0; i < scale(60, 600); i++ {
			h := holder{A: strings.Repeat("a", r.Intn(6000)), U: unwritable{r.Intn(200)}}
			if r.Intn(4) == 0 {
				h.U = make(chan int)
			}
			for _, header := range []bool{false, true} {
				way := sinkWay{"WriteXML", true, func(w io.Writer) (int, error) { return m.WriteXML(&h, w, "", header) }, func() (string, error) {
					var b bytes.Buffer
					_, err := m.WriteXML(&h, &b, "", header)
					return b.String(), err
				}}
				key := fmt.Sprintf("unwritable %d %v", i, header)
				put(way, key, nil, -1, "")
				put(way, key, randPlan(r), -1, "")
				put(way, key, nil, r.Intn(9000), "E1")
			}
		}
		// 5. a struct with fields of all kinds, every one of them across the end of the buffer
		for pad := 3300; pad <= 4096; pad += scale(3, 1) {
			h := newKindsHolder(pad)
			for _, header := range []bool{false, true} {
				way := sinkWay{"WriteXML", true, func(w io.Writer) (int, error) { return m.WriteXML(h, w, "", header) }, func() (string, error) {
					var b bytes.Buffer
					_, err := m.WriteXML(h, &b, "", header)
					return b.String(), err
				}}
				key := fmt.Sprintf("kinds %d %v", pad, header)
				put(way, key, nil, -1, "")
				put(way, key, nil, r.Intn(4096), "E1")
				put(way, key, nil, 4096, "E2")
				put(way, key, randPlan(r), -1, "")
				delete(cache, way.name+key)
			}
		}
		// 6. a real file that cannot take it: closed
		f, err := os.CreateTemp(scratch(), "sink")
		if err != nil {
			return err
		}
		f.Close()
		os.Remove(f.Name())
		for _, header := range []bool{false, true} {
			d := docOfSize(700, "", header)
			rec := sinkRec{ID: "closed file", What: "MPD.Write", Plan: []reaction{}, Calls: []sinkCall{{Len: 1, A: 0, E: "E1", Pre: true}}, Total: 700, Same: true}
			rec.Pan = guard(func() string { return rec.ID }, func() {
				n, err := d.Write(f, "", header)
				rec.N = n
				if errors.Is(err, os.ErrClosed) {
					rec.Err = "E1"
				} else {
					rec.Err = sinkErr(err)
				}
			})
			w.put(rec)
		}
		return w.close()
	})
}

func randPlan(r *rand.Rand) []reaction {
	p := make([]reaction, 1+r.Intn(8))
	for i := range p {
		p[i] = reaction{"all", ""}
		if r.Intn(3) == 0 {
			p[i] = reaction{[]string{"none", "one", "half", "butone", "all"}[r.Intn(5)], []string{"", "E1", "E2", "EOF"}[r.Intn(4)]}
		}
	}
	return p
}
