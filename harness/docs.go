package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	m "github.com/Eyevinn/dash-mpd/mpd"
)

type docRec struct {
	ID     string `json:"id"`
	Src    string `json:"src"`
	In     *rnode `json:"in"`
	Out    *rnode `json:"out"`
	Err    string `json:"err"`  // reading failed
	Werr   string `json:"werr"` // writing failed
	WF     string `json:"wf"`   // the output is not well formed
	NS     string `json:"ns"`   // the output violates Namespaces in XML
	Pan    string `json:"pan"`
	Header bool   `json:"header"` // asked for
	Decl   bool   `json:"decl"`   // the output starts with the XML declaration
	Noise  int    `json:"noise"`
	Hom    int    `json:"hom"`
	OutTxt string `json:"outtxt"`
	Wide   string `json:"wide"` // at another scale: read and written otherwise
}

func cut(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "..."
	}
	return strings.ToValidUTF8(s, "\ufffd")
}

func errStr(e error) string {
	if e == nil {
		return ""
	}
	s := e.Error()
	if s == "" {
		s = "error"
	}
	return cut(s, 300)
}

var emptyNode = &rnode{A: []rattr{}, K: []*rnode{}}

func indentOf(r *rand.Rand) string { return []string{"", "  ", "\t", " ", "    "}[r.Intn(5)] }

func roundTrip(id, src, indent string, header bool, wide *rand.Rand) (docRec, error) {
	rec := docRec{ID: id, Src: cut(src, 3000), In: emptyNode, Out: emptyNode, Header: header}
	in, err := refParse(src)
	if err != nil || in.NSErr != "" {
		return rec, fmt.Errorf("generator made a bad document: %v %v\n%s", err, in, src)
	}
	rec.In = shallow(in.Root, 0)
	var out string
	rec.Pan = guard(func() string { return "ReadFromString/WriteToString " + src }, func() {
		d, err := m.ReadFromString(src)
		rec.Err = errStr(err)
		if err != nil {
			return
		}
		out, err = d.WriteToString(indent, header)
		rec.Werr = errStr(err)
	})
	if rec.Pan != "" || rec.Err != "" || rec.Werr != "" {
		return rec, nil
	}
	o, err := refParse(out)
	if err != nil {
		rec.WF = errStr(err)
		rec.OutTxt = cut(out, 2000)
		return rec, nil
	}
	rec.OutTxt = cut(out, 3000)
	if wide != nil && in.NSErr == "" {
		if p := guard(func() string { return "at another scale: " + src }, func() {
			d, _ := m.ReadFromString(src)
			if rec.Wide = rwWide(out, indent, header, wideLens[wide.Intn(len(wideLens))]); rec.Wide == "" {
				rec.Wide = rwMany(wide, d, indent, header, manyOf(wide))
			}
		}); p != "" {
			rec.Wide = "panic: " + p
		}
	}
	rec.Out, rec.NS, rec.Decl = shallow(o.Root, 0), o.NSErr, o.Decl && strings.HasPrefix(out, "<?xml")
	return rec, nil
}

// profile: parameters of the i-th random document
func profile(r *rand.Rand, i int) genOpt {
	o := genOpt{pAttr: []float64{0.05, 0.2, 0.5, 0.9, 1}[r.Intn(5)], pKid: []float64{0.06, 0.15, 0.3, 0.6, 0.95}[r.Intn(5)],
		maxDepth: 2 + r.Intn(6), budget: []int{10, 30, 60}[r.Intn(3)], unknownAny: 0.2, mixed: r.Intn(4) == 0}
	if r.Intn(40) == 0 {
		o.bigText = true
	}
	if r.Intn(40) == 0 {
		o.bigN = true
	}
	return o
}

func init() {
	// doc-record CASES OUT mode
	register("doc-record", func(args []string) error {
		sch, docs, err := loadSchema(args[0])
		if err != nil {
			return err
		}
		mode := args[2]
		r := newRng(101)
		w, err := newRecWriter(args[1])
		if err != nil {
			return err
		}
		one := func(id string, g *gnode, so spellOpt) error {
			so.sch = sch
			src := spellDoc(r, g, &so)
			var wide *rand.Rand
			if mode == "round" && so.outerExt == 0 && r.Intn(6) == 0 {
				wide = r
			}
			rec, err := roundTrip(id, src, indentOf(r), r.Intn(2) == 0, wide)
			if err != nil {
				return err
			}
			rec.Noise, rec.Hom = so.nNoise, so.nHom
			w.put(rec)
			return nil
		}
		for i, d := range docs {
			d.D.typ = "MPD"
			so := spellOpt{plain: i%3 == 0}
			if mode == "noise" {
				so = spellOpt{noise: 0.5, doctype: true}
			}
			if err := one(d.ID, d.D, so); err != nil {
				return err
			}
		}
		var types []string
		for t := range sch {
			types = append(types, t)
		}
		sortStrings(types)
		n := scale(700, 9000)
		for i := 0; i < n; i++ {
			o := profile(r, i)
			if i%3 == 0 {
				o.focus = types[(i/3)%len(types)]
			}
			if mode == "scte" {
				o.focus = []string{"SignalType", "SpliceInfoSectionType", "SegmentationDescriptorType", "SpliceInsertType", "SpliceScheduleEventType", "BinaryType", "ExtType", "SegmentationUpidType", "PrivateCommandType", "TimeDescriptorType", "AudioChannelType", "SpliceTimeType"}[i%12]
				o.unknownAny = 0.5
			}
			g := &docGen{r: r, sch: sch, o: o}
			d := g.doc()
			so := spellOpt{plain: r.Intn(8) == 0}
			if mode == "noise" {
				so.plain = false
				so.noise = []float64{0.05, 0.2, 0.5}[r.Intn(3)]
				so.doctype = true
				if i%20 == 19 {
					so.homonym = 0.15
				}
			}
			if i%50 == 49 && mode != "noise" {
				so.outerExt = 0.7
			}
			if err := one(fmt.Sprintf("random:%d", i), d, so); err != nil {
				return err
			}
		}
		return w.close()
	})
}

var _ = bytes.Equal

// shallow leaves out what is nested more than 45 levels deep (the JSON reader of
// TLC has a limit); no element of the schema is that deep.
func shallow(n *rnode, depth int) *rnode {
	if n == nil {
		return nil
	}
	if depth >= 45 {
		n.K = n.K[:0]
		return n
	}
	for _, k := range n.K {
		shallow(k, depth+1)
	}
	return n
}
