package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	m "github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register("dur-replay", durReplay)
	register("dur-record", durRecord)
	register("render-record", renderRecord)
	register("dt-replay", dtReplay)
	register("dt-record", dtRecord)
}

func codes(s string) []int {
	o := make([]int, 0, len(s))
	for i := 0; i < len(s); i++ {
		o = append(o, int(s[i]))
	}
	return o
}

func fromCodes(c []int) string {
	b := make([]byte, len(c))
	for i, x := range c {
		b[i] = byte(x)
	}
	return string(b)
}

func digitsOf(u uint64) []int {
	s := strconv.FormatUint(u, 10)
	o := make([]int, len(s))
	for i := range s {
		o[i] = int(s[i] - '0')
	}
	return o
}

type parsed struct {
	OK  bool  `json:"ok"`
	Neg bool  `json:"neg"`
	V   []int `json:"v"`
}

func mkParsed(d int64, err error) parsed {
	if err != nil {
		return parsed{V: []int{}}
	}
	if d < 0 {
		return parsed{OK: true, Neg: true, V: digitsOf(-uint64(d))}
	}
	return parsed{OK: true, V: digitsOf(uint64(d))}
}

type parseRec struct {
	S     []int  `json:"s"`
	Via   string `json:"via"`
	Text  string `json:"text"`
	Panic string `json:"panic"`
	parsed
}

var attrEsc = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&#34;", "\t", "&#9;", "\n", "&#10;", "\r", "&#13;")

func xmlSafe(s string) bool {
	for _, r := range s {
		if r == 0xFFFD || r < 0x20 && r != 9 && r != 10 && r != 13 || r == 0xFFFE || r == 0xFFFF {
			return false
		}
	}
	return true
}

// the duration-valued places of an MPD through which a string is read
type durPlace struct {
	name string
	doc  func(v string) string
	get  func(d *m.MPD) *m.Duration
	set  func(v *m.Duration) *m.MPD
}

func mpdWith(inner string) string {
	return `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" profiles="x">` + inner + `</MPD>`
}

func mpdAttr(name string, get func(d *m.MPD) **m.Duration) durPlace {
	return durPlace{"MPD@" + name,
		func(v string) string {
			return `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" profiles="x" ` + name + `="` + v + `"></MPD>`
		},
		func(d *m.MPD) *m.Duration { return *get(d) },
		func(v *m.Duration) *m.MPD { d := m.NewMPD("static"); *get(d) = v; return d },
	}
}

func perAttr(name string, get func(p *m.Period) **m.Duration) durPlace {
	return durPlace{"Period@" + name,
		func(v string) string { return mpdWith(`<Period ` + name + `="` + v + `"></Period>`) },
		func(d *m.MPD) *m.Duration { return *get(d.Periods[0]) },
		func(v *m.Duration) *m.MPD {
			d := m.NewMPD("static")
			p := m.NewPeriod()
			d.AppendPeriod(p)
			*get(p) = v
			return d
		},
	}
}

var durPlaces = []durPlace{
	mpdAttr("mediaPresentationDuration", func(d *m.MPD) **m.Duration { return &d.MediaPresentationDuration }),
	mpdAttr("minimumUpdatePeriod", func(d *m.MPD) **m.Duration { return &d.MinimumUpdatePeriod }),
	mpdAttr("minBufferTime", func(d *m.MPD) **m.Duration { return &d.MinBufferTime }),
	mpdAttr("timeShiftBufferDepth", func(d *m.MPD) **m.Duration { return &d.TimeShiftBufferDepth }),
	mpdAttr("suggestedPresentationDelay", func(d *m.MPD) **m.Duration { return &d.SuggestedPresentationDelay }),
	mpdAttr("maxSegmentDuration", func(d *m.MPD) **m.Duration { return &d.MaxSegmentDuration }),
	mpdAttr("maxSubsegmentDuration", func(d *m.MPD) **m.Duration { return &d.MaxSubsegmentDuration }),
	perAttr("start", func(p *m.Period) **m.Duration { return &p.Start }),
	perAttr("duration", func(p *m.Period) **m.Duration { return &p.Duration }),
	perAttr("minBufferTime", func(p *m.Period) **m.Duration { return &p.MinBufferTime }),
	{"Range@starttime",
		func(v string) string {
			return mpdWith(`<Metrics metrics="a"><Range starttime="` + v + `"></Range></Metrics>`)
		},
		func(d *m.MPD) *m.Duration { return d.Metrics[0].Ranges[0].Starttime },
		func(v *m.Duration) *m.MPD {
			d := m.NewMPD("static")
			d.Metrics = []*m.MetricsType{{Ranges: []*m.RangeType{{Starttime: v}}}}
			return d
		}},
	{"BaseURL@timeShiftBufferDepth",
		func(v string) string { return mpdWith(`<BaseURL timeShiftBufferDepth="` + v + `">u</BaseURL>`) },
		func(d *m.MPD) *m.Duration { return d.BaseURL[0].TimeShiftBufferDepth },
		func(v *m.Duration) *m.MPD {
			d := m.NewMPD("static")
			d.BaseURL = []*m.BaseURLType{{TimeShiftBufferDepth: v}}
			return d
		}},
	{"PlaybackRestrictions@skipAfter",
		func(v string) string {
			return mpdWith(`<ServiceDescription id="1"><PlaybackRestrictions skipAfter="` + v + `"></PlaybackRestrictions></ServiceDescription>`)
		},
		func(d *m.MPD) *m.Duration { x := d.ServiceDescription[0].PlaybackRestrictions[0].SkipAfter; return &x },
		func(v *m.Duration) *m.MPD {
			d := m.NewMPD("static")
			d.ServiceDescription = []*m.ServiceDescriptionType{{PlaybackRestrictions: []*m.PlaybackRestrictionsType{{SkipAfter: *v}}}}
			return d
		}},
}

func parseDirect(s string) (p parsed, pan string) {
	pan = guard(func() string { return fmt.Sprintf("ParseDuration(%q)", s) }, func() {
		d, err := m.ParseDuration(s)
		p = mkParsed(int64(d), err)
	})
	return
}

func parseVia(pl durPlace, s string) (p parsed, pan string) {
	src := pl.doc(attrEsc.Replace(s))
	pan = guard(func() string { return "ReadFromString " + src }, func() {
		doc, err := m.ReadFromString(src)
		if err != nil {
			p = parsed{V: []int{}}
			return
		}
		d := pl.get(doc)
		if d == nil {
			p = parsed{OK: true, Neg: true, V: []int{}} // the attribute was lost: matches nothing
			return
		}
		p = mkParsed(int64(*d), nil)
	})
	return
}

func trimZeros(d []int) string {
	var sb strings.Builder
	for _, x := range d {
		if sb.Len() == 0 && x == 0 {
			continue
		}
		sb.WriteByte(byte('0' + x))
	}
	return sb.String()
}

// durReplay feeds every string TLC enumerated into the parser.
func durReplay(args []string) error {
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	r := newRng(11)
	sum := summary{Summary: true}
	bad := 0
	err = readCases(args[0], func(raw []byte) error {
		var c struct {
			S  []int `json:"s"`
			OK bool  `json:"ok"`
			V  []int `json:"v"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		s := fromCodes(c.S)
		sum.Cases++
		check := func(via string, p parsed, pan string) {
			sum.Checks++
			if pan != "" || p.OK != c.OK || p.OK && (p.Neg || trimZeros(p.V) != trimZeros(c.V)) {
				if bad++; bad < 50 {
					w.put(mismatch{What: fmt.Sprintf("duration %q via %s", s, via), Case: map[string]any{"s": s, "ok": c.OK, "ns": trimZeros(c.V)},
						Got: map[string]any{"ok": p.OK, "neg": p.Neg, "ns": trimZeros(p.V), "panic": pan}, Want: nil})
				}
			}
		}
		p, pan := parseDirect(s)
		check("ParseDuration", p, pan)
		if c.OK || r.Intn(8) == 0 {
			pl := durPlaces[r.Intn(len(durPlaces))]
			p, pan = parseVia(pl, s)
			check(pl.name, p, pan)
		}
		if len(sum.Samples) < 2 && c.OK && sum.Cases%211 == 7 {
			sum.Samples = append(sum.Samples, map[string]any{"s": s, "ns": trimZeros(c.V)})
		}
		return nil
	})
	if err != nil {
		return err
	}
	w.put(sum)
	return w.close()
}

func randDigits(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return "0"
	case 1:
		return strconv.Itoa(r.Intn(60))
	case 2:
		return strconv.Itoa(r.Intn(100000))
	case 3:
		return "00" + strconv.Itoa(r.Intn(100))
	case 4:
		return strconv.FormatInt(r.Int63(), 10)
	case 5:
		n := 1 + r.Intn(45)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + r.Intn(10))
		}
		return string(b)
	case 6: // near the representable limit in some unit
		lim := []int64{106751, 2562047, 153722867, 9223372036}[r.Intn(4)]
		return strconv.FormatInt(lim+int64(r.Intn(5))-2, 10)
	}
	return strconv.Itoa(r.Intn(10))
}

func randFrac(r *rand.Rand) string {
	n := 1 + r.Intn(12)
	if r.Intn(10) == 0 {
		n = 30 + r.Intn(30)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
		if r.Intn(3) == 0 {
			b[i] = '0'
		}
		if r.Intn(5) == 0 {
			b[i] = '9'
		}
	}
	return string(b)
}

func randDur(r *rand.Rand) string {
	if r.Intn(3) > 0 { // plausible sizes
		var sb strings.Builder
		sb.WriteByte('P')
		if r.Intn(4) == 0 {
			fmt.Fprintf(&sb, "%dD", r.Intn(400))
		}
		t := ""
		if r.Intn(2) == 0 {
			t += fmt.Sprintf("%dH", r.Intn(30))
		}
		if r.Intn(2) == 0 {
			t += fmt.Sprintf("%dM", r.Intn(70))
		}
		if r.Intn(3) > 0 {
			t += strconv.Itoa(r.Intn(70))
			if r.Intn(2) == 0 {
				t += "." + randFrac(r)
			}
			t += "S"
		}
		if t != "" || r.Intn(6) == 0 {
			sb.WriteString("T" + t)
		}
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteByte('P')
	if r.Intn(2) == 0 {
		sb.WriteString(randDigits(r) + "D")
	}
	t := ""
	for _, u := range "HM" {
		if r.Intn(2) == 0 {
			t += randDigits(r) + string(u)
		}
	}
	if r.Intn(2) == 0 {
		t += randDigits(r)
		if r.Intn(2) == 0 {
			t += "." + randFrac(r)
		}
		t += "S"
	}
	if t != "" {
		sb.WriteString("T" + t)
	}
	return sb.String()
}

const durAlpha = "PTDHMSYWptdhms0123456789.,-+ eE_x:Z\t\n\u00a0\u0661\uff11"

func mutate(r *rand.Rand, s string, alpha []rune) string {
	rs := []rune(s)
	for n := 1 + r.Intn(2); n > 0; n-- {
		switch k := r.Intn(5); {
		case k == 0 && len(rs) > 0: // delete
			i := r.Intn(len(rs))
			rs = append(rs[:i:i], rs[i+1:]...)
		case k == 1 && len(rs) > 0: // replace
			rs[r.Intn(len(rs))] = alpha[r.Intn(len(alpha))]
		case k == 2 && len(rs) > 1: // swap
			i := r.Intn(len(rs) - 1)
			rs[i], rs[i+1] = rs[i+1], rs[i]
		case k == 3 && len(rs) > 0: // duplicate a piece
			i := r.Intn(len(rs))
			j := i + 1 + r.Intn(len(rs)-i)
			rs = append(append(append([]rune{}, rs[:j]...), rs[i:j]...), rs[j:]...)
		default: // insert
			i := r.Intn(len(rs) + 1)
			rs = append(append(append([]rune{}, rs[:i]...), alpha[r.Intn(len(alpha))]), rs[i:]...)
		}
	}
	return string(rs)
}

func durRecord(args []string) error {
	w, err := newRecWriter(args[0])
	if err != nil {
		return err
	}
	r := newRng(12)
	alpha := []rune(durAlpha)
	fixed := []string{"", "P", "PT", "P0D", "PT0S", "PT0.0S", "T1S", "p1d", "PT1s", " PT1S", "PT1S ", "+PT1S", "-PT1S", "P-1D", "PT+1S", "PT1e3S", "PT0x1S", "PT1_0S", "P1Y", "P1M", "P1W", "PT1S\x00", "\xffPT1S", "PT\xff1S", "INF", "NaN", "PTNaNS", "PTInfS", "PT1.2.3S", "PT1,5S", "P1DT", "PTT1S", "P1DT1DT1S"}
	n := scale(14000, 150000)
	for i := 0; i < n; i++ {
		var s string
		if i < len(fixed) {
			s = fixed[i]
		} else {
			s = randDur(r)
			if r.Intn(3) == 0 {
				s = mutate(r, s, alpha)
			}
		}
		rec := parseRec{S: codes(s), Text: s, Via: "ParseDuration"}
		if r.Intn(4) == 0 && xmlSafe(s) {
			pl := durPlaces[r.Intn(len(durPlaces))]
			rec.Via = pl.name
			rec.parsed, rec.Panic = parseVia(pl, s)
		} else {
			rec.parsed, rec.Panic = parseDirect(s)
		}
		w.put(rec)
	}
	return w.close()
}

type renderRec struct {
	Neg   bool   `json:"neg"`
	V     []int  `json:"v"`
	S     []int  `json:"s"`
	Text  string `json:"text"`
	Via   string `json:"via"`
	Back  parsed `json:"back"`
	Again []int  `json:"again"`
	Panic string `json:"panic"`
}

func renderRecord(args []string) error {
	w, err := newRecWriter(args[0])
	if err != nil {
		return err
	}
	r := newRng(13)
	var vals []int64
	edge := []int64{0, 1, 2, 999, 499_999, 500_000, 500_001, 999_499, 999_500, 999_999, 1_000_000, 1_499_999, 1_500_000, 1_500_001, 500_000_000, 998_999_999, 999_499_999, 999_500_000, 999_500_001, 999_999_999}
	units := []int64{0, 1, 2, 9, 10, 59, 60, 61, 99, 100, 599, 600, 601, 3540, 3599, 3600, 3601, 3660, 35999, 36000, 86399, 86400, 86401, 359999, 360000, 172800, 1 << 31, 9223372035, 9223372036}
	for _, u := range units {
		for _, e := range edge {
			vals = append(vals, u*1e9+e)
			if u > 0 {
				vals = append(vals, u*1e9-e)
			}
		}
	}
	vals = append(vals, math.MaxInt64, math.MaxInt64-1, math.MaxInt64-500_000, math.MaxInt64-499_999, math.MaxInt64-775_807, math.MinInt64, math.MinInt64+1)
	n := scale(14000, 150000)
	for len(vals) < n {
		var v int64
		switch r.Intn(7) {
		case 0:
			v = r.Int63n(1 << (1 + r.Intn(62)))
		case 1: // whole units
			v = int64(r.Intn(2)*r.Intn(1000))*3600e9 + int64(r.Intn(2)*r.Intn(60))*60e9 + int64(r.Intn(2)*r.Intn(60))*1e9
		case 2: // ms
			v = int64(r.Intn(100_000_000)) * 1e6
		case 3: // around half a ms
			v = int64(r.Intn(1_000_000))*500_000 + int64(r.Intn(5)) - 2
		case 4:
			v = int64(r.Intn(100000))*1e9 + 1e9 - int64(r.Intn(1_000_000))
		case 5:
			v = int64(r.Intn(1_000_000))
		case 6: // sub-second fractions of decimal kind, any second
			v = int64(r.Intn(200_000))*1e9 + int64(r.Intn(1000))*1e6
		}
		if v < 0 {
			v = -v
		}
		if r.Intn(6) == 0 {
			v = -v
		}
		vals = append(vals, v)
	}
	for i, v := range vals {
		rec := renderRec{Neg: v < 0, Via: "String", S: []int{}, Again: []int{}, Back: parsed{V: []int{}}}
		if v < 0 {
			rec.V = digitsOf(-uint64(v))
		} else {
			rec.V = digitsOf(uint64(v))
		}
		d := m.Duration(v)
		pl := durPlaces[r.Intn(len(durPlaces))]
		viaDoc := i%4 == 3 && !(v == 0 && pl.name == "PlaybackRestrictions@skipAfter")
		rec.Panic = guard(func() string { return fmt.Sprintf("render %d", v) }, func() {
			var s string
			if viaDoc {
				rec.Via = pl.name
				out, err := pl.set(&d).WriteToString([]string{"", "  "}[i/4%2], i%8 == 3)
				if err != nil {
					rec.Text = "error: " + err.Error()
					return
				}
				s = attrIn(out, pl.name[strings.IndexByte(pl.name, '@')+1:])
			} else {
				s = d.String()
			}
			rec.Text, rec.S = s, codes(s)
			if v >= 0 {
				b, err := m.ParseDuration(s)
				rec.Back = mkParsed(int64(b), err)
				bd := m.Duration(b)
				rec.Again = codes(bd.String())
			}
		})
		if int64(d) != v {
			rec.Panic = "rendering changed the duration"
		}
		w.put(rec)
	}
	return w.close()
}

// attrIn finds the value of the one attribute of that name in a small document.
func attrIn(doc, name string) string {
	i := strings.Index(doc, " "+name+`="`)
	if i < 0 {
		return ""
	}
	s := doc[i+len(name)+3:]
	return s[:strings.IndexByte(s, '"')]
}

// ---------------------------------------------------------------- date-times

type instant struct {
	Day int64 `json:"day"`
	Sod int64 `json:"sod"`
	Ns  int64 `json:"ns"`
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func instOf(sec, ns int64) instant {
	d := floorDiv(sec, 86400)
	return instant{d, sec - d*86400, ns}
}

// instOfFloat: the exact value of a float64, cut to nanoseconds.
func instOfFloat(f float64) instant {
	x := new(big.Rat)
	if x.SetFloat64(f) == nil {
		return instant{1 << 30, 0, 0}
	}
	x.Mul(x, big.NewRat(1_000_000_000, 1))
	q := new(big.Int)
	rem := new(big.Int)
	q.DivMod(x.Num(), x.Denom(), rem) // Euclidean: floor for a positive divisor
	sec, ns := new(big.Int), new(big.Int)
	sec.DivMod(q, big.NewInt(1_000_000_000), ns)
	if !sec.IsInt64() || sec.Int64() > 1<<44 || sec.Int64() < -(1<<44) {
		return instant{1 << 30, 0, 0}
	}
	return instOf(sec.Int64(), ns.Int64())
}

func dtReplay(args []string) error {
	w, err := newRecWriter(args[1])
	if err != nil {
		return err
	}
	sum := summary{Summary: true}
	bad := 0
	err = readCases(args[0], func(raw []byte) error {
		var c struct {
			Day int64 `json:"day"`
			Sod int64 `json:"sod"`
			Ms  int64 `json:"ms"`
			S   []int `json:"s"`
			Z   []int `json:"z"`
			Res int64 `json:"res"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		sum.Cases++
		sec := c.Day*86400 + c.Sod
		want, zone := fromCodes(c.S), fromCodes(c.Z)
		fail := func(what string, got any) {
			if bad++; bad < 50 {
				w.put(mismatch{What: what, Case: map[string]any{"sec": sec, "ms": c.Ms, "utc": want, "zone": zone}, Got: got})
			}
		}
		pan := guard(func() string { return want }, func() {
			sum.Checks++
			if got := string(m.ConvertToDateTimeMS(sec*1000 + c.Ms)); got != want {
				fail("ConvertToDateTimeMS", got)
			}
			if c.Ms == 0 {
				sum.Checks++
				if got := string(m.ConvertToDateTimeS(sec)); got != want {
					fail("ConvertToDateTimeS", got)
				}
				if got := string(m.ConvertToDateTime(float64(sec))); got != want {
					fail("ConvertToDateTime", got)
				}
			}
			for _, s := range []string{want, zone} {
				sum.Checks++
				f, err := m.DateTime(s).ConvertToSeconds()
				if err != nil {
					fail("ConvertToSeconds rejects "+s, err.Error())
					continue
				}
				got := new(big.Rat).SetFloat64(f)
				exp := new(big.Rat).SetInt64(sec*1000 + c.Ms)
				exp.Mul(exp, big.NewRat(1, 1000))
				diff := new(big.Rat).Sub(got, exp)
				diff.Abs(diff)
				tol := big.NewRat(0, 1)
				if c.Ms != 0 {
					tol = big.NewRat(c.Res, 1_000_000_000)
				}
				if diff.Cmp(tol) > 0 {
					fail("ConvertToSeconds "+s, f)
				}
			}
		})
		if pan != "" {
			fail("panic", pan)
		}
		if len(sum.Samples) < 2 && sum.Cases%997 == 3 {
			sum.Samples = append(sum.Samples, map[string]any{"utc": want, "zone": zone, "sec": sec, "ms": c.Ms})
		}
		return nil
	})
	if err != nil {
		return err
	}
	w.put(sum)
	return w.close()
}

type dtRec struct {
	K     string  `json:"k"`
	I     instant `json:"i"`
	S     []int   `json:"s"`
	OK    bool    `json:"ok"`
	Float bool    `json:"float"`
	Text  string  `json:"text"`
	Panic string  `json:"panic"`
}

func dtRecord(args []string) error {
	w, err := newRecWriter(args[0])
	if err != nil {
		return err
	}
	r := newRng(14)
	minS, maxS := int64(-719528*86400), int64(2932897*86400-1)
	pickSec := func() int64 {
		switch r.Intn(6) {
		case 0:
			return minS + r.Int63n(maxS-minS+1)
		case 1:
			return r.Int63n(1 << (1 + r.Intn(37)))
		case 2:
			return -r.Int63n(1 << (1 + r.Intn(35)))
		case 3:
			return []int64{minS, maxS, -1, 0, 1, 951782400, 951868799, 4107542399, -2203891200, 253402300799, -62135596800}[r.Intn(11)]
		case 4:
			return (minS/86400+r.Int63n((maxS-minS)/86400))*86400 + int64(r.Intn(3)) - 1
		}
		return 1600000000 + r.Int63n(400000000)
	}
	clamp := func(s int64) int64 {
		if s < minS {
			return minS
		}
		if s > maxS {
			return maxS
		}
		return s
	}
	alpha := []rune("0123456789TZtz:-+., /_Ww\u0660")
	n := scale(9000, 90000)
	for i := 0; i < n; i++ {
		rec := dtRec{S: []int{}}
		sec := clamp(pickSec())
		switch r.Intn(6) {
		case 0: // integral
			rec.K, rec.I = "fmt", instOf(sec, 0)
			rec.Panic = guard(func() string { return fmt.Sprint(sec) }, func() { rec.Text = string(m.ConvertToDateTimeS(sec)) })
			rec.S = codes(rec.Text)
		case 1: // ms
			ms := int64(r.Intn(1000))
			rec.K, rec.I = "fmt", instOf(sec, ms*1e6)
			rec.Panic = guard(func() string { return fmt.Sprint(sec, ms) }, func() { rec.Text = string(m.ConvertToDateTimeMS(sec*1000 + ms)) })
			rec.S = codes(rec.Text)
		case 2: // float
			f := float64(sec)
			switch r.Intn(4) {
			case 0:
				f += float64(r.Intn(1000)) / 1000
			case 1:
				f += r.Float64()
			case 2:
				f = math.Nextafter(f, f+float64(r.Intn(3)-1))
			}
			rec.K, rec.I, rec.Float = "fmt", instOfFloat(f), true
			if rec.I.Day < minS/86400 || rec.I.Day > maxS/86400 {
				i--
				continue
			}
			rec.Panic = guard(func() string { return fmt.Sprint(f) }, func() { rec.Text = string(m.ConvertToDateTime(f)) })
			rec.S = codes(rec.Text)
		default:
			s := randDT(r, sec)
			if r.Intn(3) == 0 {
				s = mutate(r, s, alpha)
			}
			rec.K, rec.S, rec.Text = "sec", codes(s), s
			rec.Panic = guard(func() string { return s }, func() {
				f, err := m.DateTime(s).ConvertToSeconds()
				rec.OK = err == nil
				if err == nil {
					rec.I = instOfFloat(f)
				}
			})
		}
		w.put(rec)
	}
	return w.close()
}

// randDT writes a date-time string with independent field choices (often not
// a real date), any zone and any number of decimals.
func randDT(r *rand.Rand, sec int64) string {
	y, mo, d := r.Intn(10000), 1+r.Intn(12), 1+r.Intn(28)
	switch r.Intn(4) {
	case 0:
		y, mo, d = []int{1600, 1700, 1900, 1904, 2000, 2023, 2024, 2100, 0, 4}[r.Intn(10)], 2, 28+r.Intn(3)
	case 1:
		mo, d = r.Intn(14), 28+r.Intn(5)
	case 2:
		y = 1970 + r.Intn(80)
	}
	h, mi, s := r.Intn(24), r.Intn(60), r.Intn(60)
	switch r.Intn(12) {
	case 0:
		h = 24
	case 1:
		mi = 60
	case 2:
		s = 60
	case 3:
		h, mi, s = 0, 0, 0
	case 4:
		h, mi, s = 23, 59, 59
	}
	out := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, d, h, mi, s)
	if r.Intn(2) == 0 {
		out += "." + randFrac(r)
	}
	switch r.Intn(8) {
	case 0, 1, 2:
		out += "Z"
	case 3:
		return out
	case 4:
		out += []string{"+00:00", "-00:00", "+14:00", "-12:00", "+23:59", "-23:59", "+24:00", "+05:60", "-00:01"}[r.Intn(9)]
	default:
		out += fmt.Sprintf("%c%02d:%02d", "+-"[r.Intn(2)], r.Intn(15), []int{0, 15, 30, 45, r.Intn(60)}[r.Intn(5)])
	}
	return out
}
