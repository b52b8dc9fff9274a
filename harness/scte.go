package main

// Replays the cases of Scte.tla into the library.

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	m "github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

type scteCase struct {
	Kind, ID    string
	Sig, Bin    bool
	Sec, Direct string
	NS, Want    string
	Scheme      string
	Yes         bool
	C           struct {
		F, N, In string
		Args     []string
		Attrs    [][]string
		Text     string
	}
}

func mpdWithEvent(ev *m.EventType) *m.MPD {
	d := m.NewMPD("static")
	p := m.NewPeriod()
	d.AppendPeriod(p)
	p.EventStreams = append(p.EventStreams, &m.EventStreamType{SchemeIdUri: m.AnyURI(m.SCTE35SchemeIdXML), Events: []*m.EventType{ev}})
	return d
}

// section returns a section of the kind and the text of it
func section(kind, ns string) (*m.SpliceInfoSectionType, string) {
	name := func(l string) xml.Name { return xml.Name{Space: ns, Local: l} }
	s := &m.SpliceInfoSectionType{XMLName: name("SpliceInfoSection")}
	a, b := "", ""
	yes, id := true, uint32(7)
	switch kind {
	case "no":
		return nil, ""
	case "null":
		s.SpliceNull, b = &m.SpliceNullType{XMLName: name("SpliceNull")}, `<SpliceNull/>`
	case "pts":
		s.PtsAdjustment, a = 1, ` ptsAdjustment="1"`
	case "insert":
		s.SpliceInsert, b = &m.SpliceInsertType{XMLName: name("SpliceInsert"), SpliceEventId: &id}, `<SpliceInsert spliceEventId="7"/>`
	case "cancel":
		s.SpliceInsert, b = &m.SpliceInsertType{XMLName: name("SpliceInsert"), SpliceEventCancelIndicator: &yes}, `<SpliceInsert spliceEventCancelIndicator="true"/>`
	case "encrypted":
		s.EncryptedPacket, b = &m.EncryptedPacketType{XMLName: name("EncryptedPacket"), CwIndex: 1}, `<EncryptedPacket encryptionAlgorithm="0" cwIndex="1"/>`
	case "private":
		s.PrivateCommand, b = &m.PrivateCommandType{XMLName: name("PrivateCommand"), Identifier: 5}, `<PrivateCommand identifier="5"/>`
	case "ext":
		s.Ext, b = &m.ExtType{XMLName: name("Ext"), InnerXML: "x"}, `<Ext>x</Ext>`
	case "attr":
		s.AnyAttrs, a = []xml.Attr{{Name: xml.Name{Local: "u"}, Value: "v"}}, ` u="v"`
	case "desc":
		s.AvailDescriptors, b = []*m.AvailDescriptorType{{XMLName: name("AvailDescriptor"), ProviderAvailId: 3}}, `<AvailDescriptor providerAvailId="3"/>`
	}
	return s, `<SpliceInfoSection xmlns="` + ns + `"` + a + `>` + b + `</SpliceInfoSection>`
}

func u64(s string) uint64 { x, _ := strconv.ParseUint(s, 10, 64); return x }

// ctor calls the constructor and places its result in an Event.
func (c *scteCase) build() (*m.EventType, error) {
	ev := &m.EventType{}
	sec := m.NewSpliceInfoSection()
	if c.C.F != "NewSpliceInfoSection" && c.C.F != "NewSignal" && c.C.F != "NewBinary" && c.C.In != "AssetIdentifier" {
		ev.SpliceInfoSection = sec
	}
	switch c.C.F {
	case "NewSignal":
		ev.Signal = m.NewSignal()
	case "NewSpliceInfoSection":
		ev.SpliceInfoSection = sec
	case "NewBinary":
		ev.Signal = m.NewSignal()
		ev.Signal.Binary = m.NewBinary(c.C.Args[0])
	case "NewSpliceNull":
		sec.SpliceNull = m.NewSpliceNull()
	case "NewSpliceSchedule":
		sec.SpliceSchedule = m.NewSpliceSchedule()
	case "NewSpliceInsert":
		sec.SpliceInsert = m.NewSpliceInsert()
	case "NewTimeSignal":
		sec.TimeSignal = m.NewTimeSignal()
	case "NewBandwidthReservation":
		sec.BandwidthReservation = m.NewBandwidthReservation()
	case "NewPrivateCommand":
		sec.PrivateCommand = m.NewPrivateCommand(uint32(u64(c.C.Args[0])))
	case "NewSpliceTime":
		sec.TimeSignal = m.NewTimeSignal()
		sec.TimeSignal.SpliceTime = m.NewSpliceTime()
	case "NewBreakDuration":
		sec.SpliceInsert = m.NewSpliceInsert()
		sec.SpliceInsert.BreakDuration = m.NewBreakDuration(c.C.Args[0] == "true", u64(c.C.Args[1]))
	case "NewSegmentationDescriptor":
		sec.SegmentationDescriptors = append(sec.SegmentationDescriptors, m.NewSegmentationDescriptor())
	case "NewSegmentationUpid":
		sd := m.NewSegmentationDescriptor()
		sd.SegmentationUpids = append(sd.SegmentationUpids, m.NewSegmentationUpid(c.C.Args[0]))
		sec.SegmentationDescriptors = append(sec.SegmentationDescriptors, sd)
	case "NewSCTE214ContentIdentifier":
		return &m.EventType{}, nil
	default:
		return nil, fmt.Errorf("unknown constructor %s", c.C.F)
	}
	return ev, nil
}

func findNode(n *rnode, name, in string) *rnode {
	for _, k := range n.K {
		if k.N == name && (in == "" || n.N == in) {
			return k
		}
		if x := findNode(k, name, in); x != nil {
			return x
		}
	}
	return nil
}

// badNS returns a node below an Event outside the wanted namespace
func badNS(n *rnode, ns string, inside bool) *rnode {
	if inside && n.S != ns {
		return n
	}
	for _, k := range n.K {
		if x := badNS(k, ns, inside || n.N == "Event"); x != nil {
			return x
		}
	}
	return nil
}

func init() {
	register("scte-replay", func(args []string) error {
		w, err := newRecWriter(args[1])
		if err != nil {
			return err
		}
		s := summary{Summary: true}
		bad := func(what string, c any, got, want any) { w.put(mismatch{what, c, got, want}) }
		err = readCases(args[0], func(raw []byte) error {
			var c scteCase
			if err := json.Unmarshal(raw, &c); err != nil {
				return err
			}
			s.Cases++
			if len(s.Samples) < 2 {
				s.Samples = append(s.Samples, json.RawMessage(append([]byte{}, raw...)))
			}
			rc := json.RawMessage(append([]byte{}, raw...))
			var pan string
			switch c.Kind {
			case "scheme":
				var got, got2 bool
				pan = guard(func() string { return string(raw) }, func() {
					got = (&m.EventStreamType{SchemeIdUri: m.AnyURI(c.Scheme)}).IsSCTE35()
					d, err := m.ReadFromString(`<MPD xmlns="` + nsDASH + `"><Period><EventStream schemeIdUri="` + c.Scheme + `"/></Period></MPD>`)
					if err == nil {
						got2 = d.Periods[0].EventStreams[0].IsSCTE35()
					} else {
						got2 = !c.Yes
					}
				})
				s.Checks += 2
				if pan == "" && got != c.Yes {
					bad("IsSCTE35 of a built stream", rc, got, c.Yes)
				}
				if pan == "" && got2 != c.Yes {
					bad("IsSCTE35 of a read stream", rc, got2, c.Yes)
				}
			case "event":
				name := func(l string) xml.Name { return xml.Name{Space: c.NS, Local: l} }
				ev := &m.EventType{}
				var b strings.Builder
				if c.Sig {
					ev.Signal = &m.SignalType{XMLName: name("Signal")}
					b.WriteString(`<Signal xmlns="` + c.NS + `">`)
					x, t := section(c.Sec, c.NS)
					ev.Signal.SpliceInfoSection = x
					b.WriteString(t)
					if c.Bin {
						ev.Signal.Binary = &m.BinaryType{XMLName: name("Binary"), Value: "AA"}
						b.WriteString(`<Binary>AA</Binary>`)
					}
					b.WriteString(`</Signal>`)
				}
				if x, t := section(c.Direct, c.NS); x != nil {
					ev.SpliceInfoSection = x
					b.WriteString(t)
				}
				which := func(e *m.EventType) string {
					x := e.SpliceInfo()
					switch {
					case x == nil:
						return "nil"
					case e.Signal != nil && x == e.Signal.SpliceInfoSection:
						return "signal"
					case x == e.SpliceInfoSection:
						return "direct"
					}
					return "something else"
				}
				var g1, g2, g3 string
				pan = guard(func() string { return string(raw) }, func() {
					g1 = which(ev)
					d, err := m.ReadFromString(`<MPD xmlns="` + nsDASH + `"><Period><EventStream schemeIdUri="x"><Event>` + b.String() + `</Event></EventStream></Period></MPD>`)
					if err != nil {
						g2 = err.Error()
						return
					}
					g2 = which(d.Periods[0].EventStreams[0].Events[0])
					o, err := mpdWithEvent(ev).WriteToString(" ", false)
					if err != nil {
						g3 = err.Error()
						return
					}
					d, err = m.ReadFromString(o)
					if err != nil {
						g3 = err.Error()
						return
					}
					g3 = which(d.Periods[0].EventStreams[0].Events[0])
				})
				s.Checks += 3
				for i, g := range []string{g1, g2, g3} {
					if pan == "" && g != c.Want {
						bad("SpliceInfo of an event that was "+[]string{"built", "read", "built, written and read"}[i], rc, g, c.Want)
					}
				}
			case "ctor":
				var out string
				pan = guard(func() string { return string(raw) }, func() {
					ev, err := c.build()
					if err != nil {
						panic(err)
					}
					d := mpdWithEvent(ev)
					if c.C.F == "NewSCTE214ContentIdentifier" {
						d.Periods[0].AssetIdentifier = m.NewDescriptor(m.SCTE214SchemeIdAssetIdUpid, "", "")
						d.Periods[0].AssetIdentifier.SCTE214ContentIdentifiers = []*m.SCTE214ContentIdentifierType{m.NewSCTE214ContentIdentifier(c.C.Args[0], c.C.Args[1])}
					}
					out, err = d.WriteToString("", false)
					if err != nil {
						bad("constructed value cannot be written", rc, err.Error(), "")
					}
				})
				s.Checks++
				if pan != "" {
					break
				}
				p, err := refParse(out)
				if err != nil {
					bad("constructed value: not well formed", rc, out, "")
					break
				}
				if x := badNS(p.Root, c.NS, false); x != nil {
					bad("constructed value outside the SCTE-35 namespace", rc, out, x.N)
				}
				n := findNode(p.Root, c.C.N, c.C.In)
				if n == nil || n.S != c.NS {
					bad("constructed value: element missing", rc, out, c.C.N)
					break
				}
				var got [][]string
				for _, a := range n.A {
					got = append(got, []string{a.N, a.V})
				}
				want := map[string]string{}
				for _, a := range c.C.Attrs {
					want[a[0]] = a[1]
				}
				ok := len(n.A) == len(want) && n.T == c.C.Text && len(n.K) == 0
				for _, a := range n.A {
					ok = ok && a.S == "" && want[a.N] == a.V
				}
				if !ok {
					bad("constructed value differs from its arguments", rc, out, c.C)
				}
			}
			if pan != "" {
				bad("panic: "+pan, rc, pan, "")
			}
			return nil
		})
		if err != nil {
			return err
		}
		w.put(s)
		return w.close()
	})
}
