package main

import (
	"fmt"
	"strings"

	m "github.com/Eyevinn/dash-mpd/mpd"
)

type builtRec struct {
	ID   string   `json:"id"`
	Pan  string   `json:"pan"`
	Err  string   `json:"err"`
	Want []string `json:"want"`
	Got  []string `json:"got"`
	Out  string   `json:"out"`
}

func asciiLines(l []string) []string {
	out := make([]string, len(l))
	for i, s := range l {
		out[i] = fmt.Sprintf("%+q", s)
	}
	return out
}

func init() {
	register("built-record", func(args []string) error {
		r := newRng(303)
		w, err := newRecWriter(args[0])
		if err != nil {
			return err
		}
		for i := 0; i < scale(1200, 12000); i++ {
			d := randomStructGen(r).mpd()
			rec := builtRec{ID: fmt.Sprintf("built:%d", i), Want: asciiLines(describeMPD(d)), Got: []string{}}
			rec.Pan = guard(func() string { return rec.ID }, func() {
				o, err := d.WriteToString(indentOf(r), i%2 == 0)
				if err != nil {
					rec.Err = errStr(err)
					return
				}
				rec.Out = cut(o, 2000)
				x, err := m.ReadFromString(o)
				if err != nil {
					rec.Err = errStr(err)
					return
				}
				rec.Got = asciiLines(describeMPD(x))
			})
			w.put(rec)
		}
		return w.close()
	})
}

// Documents built through the API and written: as seen by the reference parser.
func init() {
	register("built-ns-record", func(args []string) error {
		r := newRng(304)
		w, err := newRecWriter(args[0])
		if err != nil {
			return err
		}
		for i := 0; i < scale(900, 9000); i++ {
			d := randomStructGen(r).mpd()
			rec := docRec{ID: fmt.Sprintf("built:%d", i), In: emptyNode, Out: emptyNode, Header: r.Intn(2) == 0}
			rec.Pan = guard(func() string { return rec.ID }, func() {
				o, err := d.WriteToString(indentOf(r), rec.Header)
				if err != nil {
					rec.Werr = errStr(err)
					return
				}
				rec.OutTxt = cut(o, 2000)
				p, err := refParse(o)
				if err != nil {
					rec.WF = errStr(err)
					return
				}
				rec.NS, rec.Decl = p.NSErr, p.Decl && strings.HasPrefix(o, "<?xml")
				rec.In = shallow(p.Root, 0)
				rec.Out = rec.In
			})
			w.put(rec)
		}
		return w.close()
	})
}
