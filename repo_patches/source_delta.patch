From a339cc2e39b23c5b8f9b53336f6616bdf0b19651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 01/58] fix: derive the Period start when computing the Period
 duration

GetDuration ignored that a Period without @start begins where the previous
Period ends (or at 0 for the first Period of a static MPD), and it required
@mediaPresentationDuration although the next Period's start bounds a
non-final Period.
---
 mpd/period.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/mpd/period.go b/mpd/period.go
index 6f09105..1d55502 100644
--- a/mpd/period.go
+++ b/mpd/period.go
@@ -145,22 +145,26 @@ func (p *Period) GetDuration() (Duration, error) {
 	}
 	switch m.GetType() {
 	case STATIC_TYPE:
-		if m.MediaPresentationDuration == nil {
-			return 0, ErrNoMediaPresentationDuration
-		}
-		end := *m.MediaPresentationDuration
+		var end Duration
 		if idx < nrPeriods-1 {
 			if m.Periods[idx+1].Start == nil {
 				return 0, ErrUnknownPeriodDur
 			}
 			end = *m.Periods[idx+1].Start
+		} else {
+			if m.MediaPresentationDuration == nil {
+				return 0, ErrNoMediaPresentationDuration
+			}
+			end = *m.MediaPresentationDuration
 		}
-		if p.Start == nil {
+		start, err := p.GetStart()
+		if err != nil {
 			return 0, ErrUnknownPeriodDur
 		}
-		return end - *p.Start, nil
+		return end - start, nil
 	default: // dynamic
-		if p.Start == nil {
+		start, err := p.GetStart()
+		if err != nil {
 			// Early available period
 			return 0, ErrUnknownPeriodDur
 		}
@@ -170,7 +174,7 @@ func (p *Period) GetDuration() (Duration, error) {
 		if m.Periods[idx+1].Start == nil {
 			return 0, ErrUnknownPeriodDur
 		}
-		return *m.Periods[idx+1].Start - *p.Start, nil
+		return *m.Periods[idx+1].Start - start, nil
 	}
 }
 
-- 
2.43.0


From 0fc2c35c69446734a48fc946acba305fa7933467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:25 +0000
Subject: [PATCH 02/58] fix: render durations that round up to one second as
 PT1S

A duration in [0.9995s, 1s) was rendered as PT0S since the rounded 1000 ms
lost their seconds digit.
---
 mpd/duration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 3befc58..5330048 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -78,8 +78,8 @@ func (d *Duration) String() string {
 		// Time smaller than ms, return higher precision
 		w, u = fmtFrac(buf[:w], u, 9)
 		w = fmtInt(buf[:w], u)
-	case s == 0:
-		// Time smaller than 1s, return ms
+	case s == 0 && ms < 1000:
+		// Time smaller than 1s (also after rounding), return ms
 		w, _ = fmtFrac(buf[:w], ms, 3)
 		w--
 		buf[w] = '0'
-- 
2.43.0


From 23f78454796d54737c0fce6891ccd698d2fe2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:26 +0000
Subject: [PATCH 03/58] fix: parse the decimals of a duration exactly

PT1.001S became 1.000999999s since the seconds were converted via a float64
that was truncated to nanoseconds.
---
 mpd/duration.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 5330048..b240f98 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -3,6 +3,7 @@ package mpd
 import (
 	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/Eyevinn/dash-mpd/xml"
@@ -276,11 +277,18 @@ func ParseDuration(str string) (time.Duration, error) {
 			}
 			total += time.Duration(n) * time.Minute
 		case 'S':
-			f, err := strconv.ParseFloat(numStr, 64)
-			if err != nil {
+			whole, frac, _ := strings.Cut(numStr, ".")
+			n, err := strconv.ParseUint(whole, 10, 64)
+			if err != nil && whole != "" {
 				return 0, newParseDurationError("error parsing Seconds")
 			}
-			total += time.Duration(f * float64(time.Second))
+			total += time.Duration(n) * time.Second
+			// Use the decimals as they are, without going via a float. Precision is 1ns.
+			scale := time.Second
+			for _, digit := range frac {
+				scale /= 10
+				total += time.Duration(digit-'0') * scale
+			}
 		}
 	}
 	if !seenAny {
-- 
2.43.0


From 6d21b325028df8757d1600826cd84a5117bac454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:26 +0000
Subject: [PATCH 04/58] fix: return an error for durations that overflow

Durations outside the range of time.Duration (about 292 years) were silently
wrapped around, possibly to negative values.
---
 mpd/duration.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index b240f98..39d1a35 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -188,6 +188,15 @@ func ParseDuration(str string) (time.Duration, error) {
 		lastUnit byte
 	)
 
+	// add adds n units to total, and reports if the result is representable.
+	add := func(n uint64, unit time.Duration) bool {
+		if n > uint64((math.MaxInt64-total)/unit) {
+			return false
+		}
+		total += time.Duration(n) * unit
+		return true
+	}
+
 	// rank enforces D < H < M < S ordering.
 	rank := func(c byte) int {
 		switch c {
@@ -260,34 +269,32 @@ func ParseDuration(str string) (time.Duration, error) {
 		switch unit {
 		case 'D':
 			n, err := strconv.ParseUint(numStr, 10, 64)
-			if err != nil {
+			if err != nil || !add(n, 24*time.Hour) {
 				return 0, newParseDurationError("error parsing Days")
 			}
-			total += time.Duration(n) * 24 * time.Hour
 		case 'H':
 			n, err := strconv.ParseUint(numStr, 10, 64)
-			if err != nil {
+			if err != nil || !add(n, time.Hour) {
 				return 0, newParseDurationError("error parsing Hours")
 			}
-			total += time.Duration(n) * time.Hour
 		case 'M':
 			n, err := strconv.ParseUint(numStr, 10, 64)
-			if err != nil {
+			if err != nil || !add(n, time.Minute) {
 				return 0, newParseDurationError("error parsing Minutes")
 			}
-			total += time.Duration(n) * time.Minute
 		case 'S':
 			whole, frac, _ := strings.Cut(numStr, ".")
 			n, err := strconv.ParseUint(whole, 10, 64)
-			if err != nil && whole != "" {
+			if (err != nil && whole != "") || !add(n, time.Second) {
 				return 0, newParseDurationError("error parsing Seconds")
 			}
-			total += time.Duration(n) * time.Second
 			// Use the decimals as they are, without going via a float. Precision is 1ns.
 			scale := time.Second
 			for _, digit := range frac {
 				scale /= 10
-				total += time.Duration(digit-'0') * scale
+				if scale > 0 && !add(uint64(digit-'0'), scale) {
+					return 0, newParseDurationError("error parsing Seconds")
+				}
 			}
 		}
 	}
-- 
2.43.0


From f1befafacd5f929c26f8369918301ec8c0fd331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:27 +0000
Subject: [PATCH 05/58] fix: reject durations outside the documented format

PT1D, P1DT, PT1.S and PT.5S are not of the form P[nD][T[nH][nM][nS]] (nor
valid xs:duration values) but were accepted.
---
 mpd/duration.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 39d1a35..7f62b5f 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -220,6 +220,9 @@ func ParseDuration(str string) (time.Duration, error) {
 			}
 			afterT = true
 			i++
+			if i == len(str) && seenAny {
+				return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
+			}
 			continue
 		}
 		if c == '-' {
@@ -258,7 +261,10 @@ func ParseDuration(str string) (time.Duration, error) {
 		if unit != 'D' && !afterT {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
-		if sawDot && unit != 'S' {
+		if unit == 'D' && afterT {
+			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
+		}
+		if sawDot && (unit != 'S' || str[start] == '.' || str[i-2] == '.') {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
 		lastUnit = unit
@@ -285,7 +291,7 @@ func ParseDuration(str string) (time.Duration, error) {
 		case 'S':
 			whole, frac, _ := strings.Cut(numStr, ".")
 			n, err := strconv.ParseUint(whole, 10, 64)
-			if (err != nil && whole != "") || !add(n, time.Second) {
+			if err != nil || !add(n, time.Second) {
 				return 0, newParseDurationError("error parsing Seconds")
 			}
 			// Use the decimals as they are, without going via a float. Precision is 1ns.
-- 
2.43.0


From 7002a329b07568a2ac83bf2b116182e87d690a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:41 +0000
Subject: [PATCH 06/58] fix: convert DateTimes outside the years 1678-2262 to
 seconds

The nanosecond count since 1970 overflows an int64 for such dates.
---
 mpd/io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpd/io.go b/mpd/io.go
index 8295cd1..6e8d72d 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -145,5 +145,6 @@ func (dt DateTime) ConvertToSeconds() (float64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return float64(t.UnixNano()) / 1_000_000_000, nil
+	// t.UnixNano() is only defined for the years 1678 to 2262.
+	return float64(t.Unix()) + float64(t.Nanosecond())/1_000_000_000, nil
 }
-- 
2.43.0


From 70c6ce7ebca27b0a52b81fa7a84a2d602226cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 07/58] fix: leave out the timescale when it is set to the
 default value 1

---
 mpd/mpd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3d02e9a..0ff9743 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -804,6 +804,7 @@ func (s SegmentBaseType) GetTimescale() uint32 {
 func (s *SegmentBaseType) SetTimescale(timescale uint32) {
 	if timescale == 1 {
 		s.Timescale = nil
+		return
 	}
 	s.Timescale = &timescale
 }
-- 
2.43.0


From 22da0a7f5490b3d318c6cfba03395791a632aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:02 +0000
Subject: [PATCH 08/58] fix: write the xlink attributes of AdaptationSet and
 SegmentList in the xlink namespace

The struct tags lacked the namespace, so href, actuate, type and show were
written as attributes in no namespace.
---
 mpd/mpd.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 0ff9743..c22576f 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -350,10 +350,10 @@ type UIntVWithIDType struct {
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
 // Note that XMLName is not set, since the same structure is used also for EmptyAdaptationSet.
 type AdaptationSetType struct {
-	XlinkHref               string                 `xml:"xlink:href,attr,omitempty"`
-	XlinkActuate            string                 `xml:"xlink:actuate,attr,omitempty"` // default is "onRequest"
-	XlinkType               string                 `xml:"xlink:type,attr,omitempty"`    // fixed "simple"
-	XlinkShow               string                 `xml:"xlink:show,attr,omitempty"`    // fixed "embed"
+	XlinkHref               string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate            string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default is "onRequest"
+	XlinkType               string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed "simple"
+	XlinkShow               string                 `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	Id                      *uint32                `xml:"id,attr"`
 	Group                   uint32                 `xml:"group,attr,omitempty"`
 	Lang                    string                 `xml:"lang,attr,omitempty"`
@@ -845,7 +845,7 @@ type SegmentListType struct {
 	XlinkHref    string            `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
 	XlinkActuate string            `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
 	XlinkType    string            `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	XlinkShow    string            `xml:"xlink:show,attr,omitempty"`                                 // fixed "embed"
+	XlinkShow    string            `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	SegmentURL   []*SegmentURLType `xml:"SegmentURL"`
 	MultipleSegmentBaseType
 }
-- 
2.43.0


From 68c5d599e964d91f09d50b5fa0cd92257dc2a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:02 +0000
Subject: [PATCH 09/58] fix: map Switching@interval to an attribute

The interval was mapped to a child element and the attribute was lost.
---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index c22576f..d348d88 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -756,7 +756,7 @@ type SubsetType struct {
 // SwitchingType is Switching
 type SwitchingType struct {
 	XMLName  xml.Name          `xml:"Switching"`
-	Interval uint32            `xml:"interval"`
+	Interval uint32            `xml:"interval,attr"`
 	Type     SwitchingTypeType `xml:"type,attr,omitempty"` // default = "media"
 }
 
-- 
2.43.0


From 0bbfa8199e3bc37e2e0cb8baf7d1fa10d2ecf064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 10/58] fix: read and write GroupLabel, InitializationGroup,
 InitializationPresentation and QualityLatency

The fixed XMLName of their shared types did not match these element names,
so documents with them could not be read, and the integer vectors were not
mapped to the character data of the elements.
---
 mpd/mpd.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index d348d88..000d008 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -332,19 +332,19 @@ type PlaybackRestrictionsType struct {
 }
 
 // UIntPairsWithIDType is UInt Pairs With ID.
+// It is used for QualityLatency and therefore has no XMLName.
 type UIntPairsWithIDType struct {
-	XMLName xml.Name `xml:"UIntPairsWithID"`
-	Type    AnyURI   `xml:"type,attr,omitempty"`
-	*UIntVectorType
+	Type            AnyURI `xml:"type,attr,omitempty"`
+	*UIntVectorType `xml:",chardata"`
 }
 
-// UIntVWithIDType is UInt Vector With ID
+// UIntVWithIDType is UInt Vector With ID.
+// It is used for InitializationGroup and InitializationPresentation and therefore has no XMLName.
 type UIntVWithIDType struct {
-	XMLName     xml.Name               `xml:"UIntVWithID"`
-	Id          uint32                 `xml:"id,attr"`
-	Profiles    ListOfProfilesType     `xml:"profiles,attr,omitempty"`
-	ContentType RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
-	UIntVectorType
+	Id             uint32                 `xml:"id,attr"`
+	Profiles       ListOfProfilesType     `xml:"profiles,attr,omitempty"`
+	ContentType    RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
+	UIntVectorType `xml:",chardata"`
 }
 
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
@@ -710,11 +710,11 @@ type ContentPopularityRateType struct {
 }
 
 // LabelType is Label and Group Label.
+// It therefore has no XMLName.
 type LabelType struct {
-	XMLName xml.Name `xml:"Label"`
-	Id      uint32   `xml:"id,attr,omitempty"` // default = 0
-	Lang    string   `xml:"lang,attr,omitempty"`
-	Value   string   `xml:",chardata"`
+	Id    uint32 `xml:"id,attr,omitempty"` // default = 0
+	Lang  string `xml:"lang,attr,omitempty"`
+	Value string `xml:",chardata"`
 }
 
 // ProducerReferenceTimeType is Producer Reference time.
-- 
2.43.0


From 16067e11f82914f178a37c2b5bd9c4592e4c76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:45 +0000
Subject: [PATCH 11/58] fix: set the parents of EmptyAdaptationSets

---
 mpd/parents.go | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/mpd/parents.go b/mpd/parents.go
index 6bbc61c..798126c 100644
--- a/mpd/parents.go
+++ b/mpd/parents.go
@@ -5,15 +5,7 @@ package mpd
 func (m *MPD) SetParents() {
 	for _, p := range m.Periods {
 		p.SetParent(m)
-		for _, a := range p.AdaptationSets {
-			a.SetParent(p)
-			for _, r := range a.Representations {
-				r.SetParent(a)
-				for _, sr := range r.SubRepresentations {
-					sr.SetParent(r)
-				}
-			}
-		}
+		p.SetParents()
 	}
 }
 
@@ -27,12 +19,11 @@ func (m *MPD) AppendPeriod(p *Period) {
 func (p *Period) SetParents() {
 	for _, a := range p.AdaptationSets {
 		a.SetParent(p)
-		for _, r := range a.Representations {
-			r.SetParent(a)
-			for _, sr := range r.SubRepresentations {
-				sr.SetParent(r)
-			}
-		}
+		a.SetParents()
+	}
+	for _, a := range p.EmptyAdaptationSets {
+		a.SetParent(p)
+		a.SetParents()
 	}
 }
 
-- 
2.43.0


From a3a9896a254a3ba14474f4310a34ba767734741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 12/58] fix: do not panic in the getters of a Representation
 without parent

---
 mpd/mpd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 000d008..9223a4a 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -556,7 +556,7 @@ type RepresentationBaseType struct {
 }
 
 func (r *RepresentationType) GetSegmentTemplate() *SegmentTemplateType {
-	if r.SegmentTemplate == nil {
+	if r.SegmentTemplate == nil && r.parent != nil {
 		return r.parent.GetSegmentTemplate()
 	}
 	return r.SegmentTemplate
@@ -601,7 +601,7 @@ func (r *RepresentationType) GetMedia() (string, error) {
 
 // GetMimeType returns the representation's or its parent's mime type.
 func (r *RepresentationType) GetMimeType() string {
-	if r.MimeType == "" {
+	if r.MimeType == "" && r.parent != nil {
 		return r.parent.GetMimeType()
 	}
 	return r.MimeType
@@ -609,7 +609,7 @@ func (r *RepresentationType) GetMimeType() string {
 
 // GetCodecs returns the representation's or its parent's codecs string.
 func (r *RepresentationType) GetCodecs() string {
-	if r.Codecs == "" {
+	if r.Codecs == "" && r.parent != nil {
 		return r.parent.GetCodecs()
 	}
 	return r.Codecs
@@ -617,7 +617,7 @@ func (r *RepresentationType) GetCodecs() string {
 
 // GetContentProtections returns the representation's or its parent's content protections.
 func (r *RepresentationType) GetContentProtections() []*ContentProtectionType {
-	if len(r.ContentProtections) == 0 {
+	if len(r.ContentProtections) == 0 && r.parent != nil {
 		return r.parent.GetContentProtections()
 	}
 	return r.ContentProtections
-- 
2.43.0


From 60748fbbd97f01a4b54061d9a5bd5f80d6846844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 13/58] fix: replace the identifiers of a segment template in a
 single pass

A Representation id containing $Bandwidth$ was itself expanded.
---
 mpd/mpd.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 9223a4a..0d2ddce 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -574,10 +574,7 @@ func (r *RepresentationType) GetInit() (string, error) {
 	if st == nil {
 		return "", ErrSegmentTemplateNotSet
 	}
-	initialization := st.Initialization
-	initialization = strings.ReplaceAll(initialization, "$RepresentationID$", r.Id)
-	initialization = strings.ReplaceAll(initialization, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
-	return initialization, nil
+	return r.replaceIdentifiers(st.Initialization), nil
 }
 
 // GetRepMedia returns the representation's media path with replaced ID and bandwidth identifiers.
@@ -592,11 +589,16 @@ func (r *RepresentationType) GetMedia() (string, error) {
 	if st == nil {
 		return "", ErrSegmentTemplateNotSet
 	}
-	media := st.Media
-	media = strings.ReplaceAll(media, "$RepresentationID$", r.Id)
-	media = strings.ReplaceAll(media, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
+	return r.replaceIdentifiers(st.Media), nil
+}
 
-	return media, nil
+// replaceIdentifiers replaces the representation's ID and bandwidth identifiers in template.
+// This is done in a single pass, so that the inserted values are left as they are.
+func (r *RepresentationType) replaceIdentifiers(template string) string {
+	return strings.NewReplacer(
+		"$RepresentationID$", r.Id,
+		"$Bandwidth$", strconv.Itoa(int(r.Bandwidth)),
+	).Replace(template)
 }
 
 // GetMimeType returns the representation's or its parent's mime type.
-- 
2.43.0


From 9ed21537bb4f8ea39696b2e07164669bdad0aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 14/58] fix: do not rely on a default namespace that is
 redefined by a closer ancestor

An element was written without xmlns if any ancestor had its namespace as
default, although an element in between had declared another one.
---
 xml/marshal.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index c8acede..ee7a1bd 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -371,6 +371,7 @@ type element struct {
 	name       string
 	nsToPrefix map[string]string
 	prefixToNS map[string]string
+	defaultNS  *string // default namespace declared by this element, if any
 }
 
 func newElement(name Name) element {
@@ -830,11 +831,11 @@ func (p *printer) writeStart(start *StartElement) error {
 				break
 			}
 		}
-		// Walk up the tree to see if a default namespace is already defined without a prefix.
+		// Walk up the tree to see if the default namespace in scope is the right one.
 		if !spaceDefined && e.prefix == "" {
 			for i := len(p.elements) - 2; i >= 0; i-- {
-				if p.elements[i].prefix == "" && p.elements[i].xmlns == e.xmlns {
-					spaceDefined = true
+				if ns := p.elements[i].defaultNS; ns != nil {
+					spaceDefined = *ns == e.xmlns && p.elements[i].xmlns == e.xmlns
 					break
 				}
 			}
@@ -878,6 +879,7 @@ func (p *printer) writeStart(start *StartElement) error {
 			p.WriteString(` xmlns="`)
 			p.EscapeString(e.xmlns)
 			p.WriteByte('"')
+			e.defaultNS = &e.xmlns
 		}
 	} else {
 		p.WriteString(e.name)
@@ -889,6 +891,9 @@ func (p *printer) writeStart(start *StartElement) error {
 			continue
 		}
 		prefix, local := splitPrefixed(attr.Name.Local)
+		if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix {
+			e.defaultNS = &attr.Value
+		}
 		p.WriteByte(' ')
 		if attr.Name.Space == xmlnsURL {
 			p.createPrefix(attr.Value, local)
-- 
2.43.0


From e5ee6418e379caad63c2895308ce374adbf308bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 15/58] fix: keep the namespace of an MPD that was read with a
 prefix

Only the xmlns attribute was kept, so an MPD with its namespace bound to a
prefix was written in no namespace, or in an unrelated default one.
---
 mpd/io.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpd/io.go b/mpd/io.go
index 6e8d72d..6c33a44 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -32,6 +32,8 @@ func ReadFromFile(path string) (*MPD, error) {
 	if err != nil {
 		return nil, err
 	}
+	// The output has no prefix for the MPD namespace, so it must be the default one.
+	mpd.XMLNs = mpd.XMLName.Space
 	mpd.SetParents()
 	return &mpd, nil
 }
@@ -48,6 +50,8 @@ func MPDFromBytes(data []byte) (*MPD, error) {
 	if err != nil {
 		return nil, err
 	}
+	// The output has no prefix for the MPD namespace, so it must be the default one.
+	mpd.XMLNs = mpd.XMLName.Space
 	mpd.SetParents()
 	return &mpd, nil
 }
-- 
2.43.0


From 07d27d8621f404b6a5d27ce91960f0a85ae69fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 16/58] fix: do not indent inside elements with mixed content

The indentation became part of the character data when the output was read
again, so it grew every time an Event with text and child elements was
read and written.
---
 xml/marshal.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index ee7a1bd..b4adbd1 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -190,6 +190,7 @@ func ReleaseEncoder(enc *Encoder) {
 	enc.p.depth = 0
 	enc.p.indentedIn = false
 	enc.p.putNewline = false
+	enc.p.mixed = 0
 	enc.p.closed = false
 	enc.p.err = nil
 	// Truncate the elements slice without releasing its backing array.
@@ -405,6 +406,7 @@ type printer struct {
 	depth      int
 	indentedIn bool
 	putNewline bool
+	mixed      int // number of open elements with character data before child elements
 	elements   []element
 	closed     bool
 	err        error
@@ -1027,6 +1029,11 @@ func (p *printer) marshalStruct(tinfo *typeInfo, val reflect.Value) error {
 			if err := s.trim(finfo.parents); err != nil {
 				return err
 			}
+			if !isEmptyValue(indirect(vf)) {
+				// Indentation would add to the character data.
+				p.mixed++
+				defer func() { p.mixed-- }()
+			}
 			if vf.CanInterface() && vf.Type().Implements(textMarshalerType) {
 				data, err := vf.Interface().(encoding.TextMarshaler).MarshalText()
 				if err != nil {
@@ -1216,7 +1223,7 @@ func (p *printer) cachedWriteError() error {
 }
 
 func (p *printer) writeIndent(depthDelta int) {
-	if len(p.prefix) == 0 && len(p.indent) == 0 {
+	if (len(p.prefix) == 0 && len(p.indent) == 0) || p.mixed > 0 {
 		return
 	}
 	if depthDelta < 0 {
-- 
2.43.0


From 3efdca58fe73590c74622a6361c5e8304f74fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:11 +0000
Subject: [PATCH 17/58] fix: leave the whitespace around the child elements of
 an Event out of its value

It was added to the output, on top of the indentation, when such an Event
was written again.
---
 mpd/mpd.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 0d2ddce..17c6960 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -240,6 +240,23 @@ type EventType struct {
 	SpliceInfoSection    *SpliceInfoSectionType          `xml:"SpliceInfoSection,omitempty"` // SCTE-35 SpliceInfoSection, direct form
 }
 
+// UnmarshalXML unmarshals an Event.
+// Whitespace around its child elements, like indentation, is not part of the value.
+func (e *EventType) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	type plain EventType // without UnmarshalXML
+	if err := d.DecodeElement((*plain)(e), &start); err != nil {
+		return err
+	}
+	hasChild := e.SelectionInfo != nil || e.ServiceDescription != nil ||
+		e.InsertPresentation != nil || e.ReplacePresentation != nil ||
+		len(e.SupplementalProperty) > 0 || len(e.EssentialProperty) > 0 ||
+		e.Signal != nil || e.SpliceInfoSection != nil
+	if hasChild && strings.TrimSpace(e.Value) == "" {
+		e.Value = ""
+	}
+	return nil
+}
+
 // SelectionInfoType is SelectionInfo
 type SelectionInfoType struct {
 	SelectionInfo string           `xml:"selectionInfo,attr,omitempty"`
-- 
2.43.0


From eaab2a5e9f5196afb340c08de9e878764db2f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 18/58] fix: write and read lists of strings as one
 space-separated attribute

---
 mpd/mpd.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 17c6960..330b059 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -1015,6 +1015,20 @@ type LeapSecondInformationType struct {
 // StringNoWhitespaceVectorType is Whitespace-separated list of no-whitespace strings
 type StringNoWhitespaceVectorType []string
 
+// MarshalXMLAttr renders the list as one attribute with space-separated values.
+func (l *StringNoWhitespaceVectorType) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
+	if l == nil {
+		return xml.Attr{}, nil
+	}
+	return xml.Attr{Name: name, Value: strings.Join(*l, " ")}, nil
+}
+
+// UnmarshalXMLAttr splits the attribute value into the values of the list.
+func (l *StringNoWhitespaceVectorType) UnmarshalXMLAttr(attr xml.Attr) error {
+	*l = strings.Fields(attr.Value)
+	return nil
+}
+
 // ContentSteeringType is Content Steering.
 type ContentSteeringType struct {
 	DefaultServiceLocation string `xml:"defaultServiceLocation,attr,omitempty"`
-- 
2.43.0


From bb6a9fdc68eb7d0498fac9204e3d7e4c57317808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 19/58] fix: deliver '>' in character data instead of empty
 tokens forever

---
 xml/xml.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index d044c43..1d65454 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1063,11 +1063,6 @@ Input:
 			d.ungetc('<')
 			break Input
 		}
-		// This occurs only for an unquoted attr name.
-		if b == '>' && !cdata && quote < 0 { // Possible end of tag reached
-			d.ungetc('>') // Leaving end of tag available
-			break         // returning text
-		}
 		if quote >= 0 && b == byte(quote) {
 			break Input
 		}
-- 
2.43.0


From 8e901af006e6e1f7e8605b17fed3cd09e49aa4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 20/58] fix: do not swallow the character after a valueless
 attribute

---
 xml/xml.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xml/xml.go b/xml/xml.go
index 1d65454..d1689db 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -871,6 +871,7 @@ func (d *Decoder) rawToken() (Token, error) {
 				d.err = d.syntaxError("attribute name without = in element")
 				return nil, d.err
 			}
+			d.ungetc(b)
 			a.Value = a.Name.Local
 		} else {
 			d.space()
-- 
2.43.0


From 4782bd6bef54b829d37bde3ccc816c8bf491bbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 21/58] fix: normalize white space in attribute values

---
 xml/xml.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xml/xml.go b/xml/xml.go
index d1689db..c9fa411 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1161,10 +1161,16 @@ Input:
 
 		// We must rewrite unescaped \r and \r\n into \n.
 		// End of line handling https://www.w3.org/TR/xml/#sec-line-ends
-		if b == '\r' {
+		// White space in attribute values must become spaces.
+		// Attribute-value normalization https://www.w3.org/TR/xml/#AVNormalize
+		if b == '\r' && quote >= 0 {
+			d.buf.WriteByte(' ')
+		} else if b == '\r' {
 			d.buf.WriteByte('\n')
 		} else if b1 == '\r' && b == '\n' {
 			// Skip \r\n--we already wrote \n.
+		} else if quote >= 0 && (b == '\n' || b == '\t') {
+			d.buf.WriteByte(' ')
 		} else {
 			d.buf.WriteByte(b)
 		}
-- 
2.43.0


From b74ae1d20d3a873f74b899750d0693c5fe57f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:17 +0000
Subject: [PATCH 22/58] fix: never declare a prefix or the default namespace
 twice on an element

---
 xml/marshal.go | 89 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 57 insertions(+), 32 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index b4adbd1..31fcd34 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -429,7 +429,7 @@ func (p *printer) getPrefix(uri string) string {
 		if prefix != "" {
 			// Look for prefix collision deeper in the tree
 			for i++; i < len(p.elements); i++ {
-				if p.elements[i].prefixToNS[prefix] != "" {
+				if ns := p.elements[i].prefixToNS[prefix]; ns != "" && ns != uri {
 					return ""
 				}
 			}
@@ -443,20 +443,16 @@ func (p *printer) getPrefix(uri string) string {
 // defining a new prefix if necessary. It returns the prefix.
 // If set, it will attempt to use preferred as the prefix.
 func (p *printer) createPrefix(uri, preferred string) (string, bool) {
-	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "") {
-		return prefix, false
-	}
-
 	if len(p.elements) == 0 {
-		return "", false
+		return p.getPrefix(uri), false
+	}
+	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "" || uri == xmlURL) {
+		p.declarePrefix(prefix, uri)
+		return prefix, false
 	}
 
 	// Need to define a new namespace prefix
 	e := &p.elements[len(p.elements)-1]
-	if e.nsToPrefix == nil {
-		e.nsToPrefix = make(map[string]string)
-		e.prefixToNS = make(map[string]string)
-	}
 
 	// Pick a name. Try to use the final element of the path but fall back to _.
 	prefix := preferred
@@ -486,12 +482,39 @@ func (p *printer) createPrefix(uri, preferred string) (string, bool) {
 		}
 	}
 
+	p.declarePrefix(prefix, uri)
+
+	return prefix, true
+}
+
+// declarePrefix notes that prefix stands for uri in the current element, so that
+// it is not declared for another namespace there.
+func (p *printer) declarePrefix(prefix, uri string) {
+	e := &p.elements[len(p.elements)-1]
+	if e.prefixToNS[prefix] != "" {
+		return
+	}
+	if e.nsToPrefix == nil {
+		e.nsToPrefix = make(map[string]string)
+		e.prefixToNS = make(map[string]string)
+	}
 	if e.nsToPrefix[uri] == "" {
 		e.nsToPrefix[uri] = prefix
 	}
 	e.prefixToNS[prefix] = uri
+}
 
-	return prefix, true
+// declaredBefore reports whether name is a namespace declaration that is among attrs.
+func declaredBefore(attrs []Attr, name Name) bool {
+	if name.Space != xmlnsURL && (name.Space != "" || name.Local != xmlnsPrefix) {
+		return false
+	}
+	for _, attr := range attrs {
+		if attr.Name == name {
+			return true
+		}
+	}
+	return false
 }
 
 func (p *printer) writePrefixAttr(prefix, uri string) {
@@ -823,18 +846,28 @@ func (p *printer) writeStart(start *StartElement) error {
 	p.elements = append(p.elements, newElement(start.Name))
 	e := &p.elements[len(p.elements)-1]
 
+	// Prefixes and default namespace declared by the attributes are in scope for
+	// the tag and all its attributes.
+	var defaultNS *string
+	for i := range start.Attr {
+		attr := &start.Attr[i]
+		if attr.Name.Space == xmlnsURL && attr.Name.Local != "" {
+			p.declarePrefix(attr.Name.Local, attr.Value)
+		} else if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && defaultNS == nil {
+			defaultNS = &attr.Value
+		}
+	}
+
 	// Set the namespace prefix, if necessary
-	var spaceDefined bool
+	var spaceDefined, needPrefix bool
 	if e.xmlns != "" {
 		// Try to avoid needing a prefix first.
-		for _, attr := range start.Attr {
-			if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {
-				spaceDefined = true
-				break
-			}
+		if defaultNS != nil && *defaultNS == e.xmlns {
+			e.prefix = ""
+			spaceDefined = true
 		}
 		// Walk up the tree to see if the default namespace in scope is the right one.
-		if !spaceDefined && e.prefix == "" {
+		if !spaceDefined && e.prefix == "" && defaultNS == nil {
 			for i := len(p.elements) - 2; i >= 0; i-- {
 				if ns := p.elements[i].defaultNS; ns != nil {
 					spaceDefined = *ns == e.xmlns && p.elements[i].xmlns == e.xmlns
@@ -843,27 +876,20 @@ func (p *printer) writeStart(start *StartElement) error {
 			}
 		}
 		// Locate an eventual prefix. If none, the XML is <tag name and no short notation is used
-		if !spaceDefined && e.prefix == "" {
-			// Look for an xmlns:prefix="uri" attribute that matches tag
-			for _, attr := range start.Attr {
-				if attr.Name.Space == xmlnsURL && attr.Name.Local != "" && attr.Value == e.xmlns {
-					e.prefix, _ = p.createPrefix(attr.Value, attr.Name.Local)
-					spaceDefined = true
-					break
-				}
-			}
-		}
 		if !spaceDefined && e.prefix == "" {
 			e.prefix = p.getPrefix(e.xmlns)
 			if e.prefix != "" {
 				spaceDefined = true
+				p.declarePrefix(e.prefix, e.xmlns)
 			}
 		}
+		// The short notation would declare the default namespace twice.
+		needPrefix = !spaceDefined && e.prefix == "" && defaultNS != nil
 	}
 
 	p.writeIndent(1) // handling relative depth of a tag
 	p.WriteByte('<')
-	if e.prefix != "" {
+	if e.prefix != "" || needPrefix {
 		var prefixCreated bool
 		if e.xmlns != "" && !spaceDefined {
 			e.prefix, prefixCreated = p.createPrefix(e.xmlns, e.prefix)
@@ -888,8 +914,8 @@ func (p *printer) writeStart(start *StartElement) error {
 	}
 
 	// Attributes
-	for _, attr := range start.Attr {
-		if attr.Name.Local == "" {
+	for i, attr := range start.Attr {
+		if attr.Name.Local == "" || declaredBefore(start.Attr[:i], attr.Name) {
 			continue
 		}
 		prefix, local := splitPrefixed(attr.Name.Local)
@@ -898,7 +924,6 @@ func (p *printer) writeStart(start *StartElement) error {
 		}
 		p.WriteByte(' ')
 		if attr.Name.Space == xmlnsURL {
-			p.createPrefix(attr.Value, local)
 			p.WriteString(xmlnsPrefix)
 			p.WriteByte(':')
 		} else if attr.Name.Space != "" {
-- 
2.43.0


From c7276f70af7b89743dec690a1242e79546e10976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:17 +0000
Subject: [PATCH 23/58] fix: do not panic on attributes of an embedded nil
 pointer

---
 xml/marshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 31fcd34..a7125c2 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -649,7 +649,8 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 
 		fv := finfo.value(val, dontInitNilPointers)
 
-		if finfo.flags&fOmitEmpty != 0 && (!fv.IsValid() || isEmptyValue(fv)) {
+		// The field of an embedded nil pointer is not valid.
+		if !fv.IsValid() || finfo.flags&fOmitEmpty != 0 && isEmptyValue(fv) {
 			continue
 		}
 
-- 
2.43.0


From 8153253080bbf90ecef02ee373f099d3b3e381a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 24/58] fix: ignore white space around availabilityTimeOffset
 and the like

---
 mpd/mpd.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 330b059..7e03623 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -1271,11 +1271,12 @@ func (f *FloatInf64) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
 }
 
 func (f *FloatInf64) UnmarshalXMLAttr(attr xml.Attr) error {
-	if attr.Value == "INF" {
+	val := strings.TrimSpace(attr.Value)
+	if val == "INF" {
 		*f = FloatInf64(math.Inf(+1))
 		return nil
 	}
-	fl, err := strconv.ParseFloat(attr.Value, 64)
+	fl, err := strconv.ParseFloat(val, 64)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 458fbc722c7f3e30241c6c6ef5c28f5f92235f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 25/58] fix: keep non-XML white space in the value of an Event
 with children

---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 7e03623..203029f 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -251,7 +251,7 @@ func (e *EventType) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		e.InsertPresentation != nil || e.ReplacePresentation != nil ||
 		len(e.SupplementalProperty) > 0 || len(e.EssentialProperty) > 0 ||
 		e.Signal != nil || e.SpliceInfoSection != nil
-	if hasChild && strings.TrimSpace(e.Value) == "" {
+	if hasChild && strings.Trim(e.Value, " \t\r\n") == "" {
 		e.Value = ""
 	}
 	return nil
-- 
2.43.0


From 347fc2d10ffd9bcb7dd6be23883ba740dd6ca462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 26/58] fix: close elements whose preferred prefix was taken

---
 xml/marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index a7125c2..3a9ede6 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -369,6 +369,7 @@ func (enc *Encoder) Close() error {
 type element struct {
 	xmlns      string
 	prefix     string
+	preferred  string // prefix asked for
 	name       string
 	nsToPrefix map[string]string
 	prefixToNS map[string]string
@@ -379,6 +380,7 @@ func newElement(name Name) element {
 	var e element
 	e.xmlns = name.Space
 	e.prefix, e.name = splitPrefixed(name.Local)
+	e.preferred = e.prefix
 	return e
 }
 
@@ -956,7 +958,7 @@ func (p *printer) writeEnd(name Name) error {
 	e := p.elements[len(p.elements)-1]
 	prefix, local := splitPrefixed(name.Local)
 	// Tag prefixes do not match
-	if prefix != "" && e.prefix != "" && prefix != e.prefix {
+	if prefix != "" && e.prefix != "" && prefix != e.prefix && prefix != e.preferred {
 		return fmt.Errorf("xml: end prefix </%s:%s> does not match start prefix <%s:%s>", prefix, local, e.prefix, e.name)
 	}
 	// Tag names do not match
-- 
2.43.0


From c91f8026904660ebf5e154c709a789ca4bafadad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 27/58] fix: write PrivateBytes in the namespace of its SCTE-35
 parent

---
 mpd/scte35.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/mpd/scte35.go b/mpd/scte35.go
index 5867dad..83cc8f0 100644
--- a/mpd/scte35.go
+++ b/mpd/scte35.go
@@ -309,6 +309,16 @@ type PrivateCommandType struct {
 	PrivateBytes string   `xml:"PrivateBytes,omitempty"` // xsd:hexBinary
 }
 
+// MarshalXML writes PrivateBytes in the namespace of its parent.
+func (c *PrivateCommandType) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	start.Name = replayedName(c.XMLName, start.Name)
+	return e.EncodeElement(struct {
+		Identifier   uint32   `xml:"identifier,attr"`
+		Ext          *ExtType `xml:"Ext,omitempty"`
+		PrivateBytes *privateBytes
+	}{c.Identifier, c.Ext, newPrivateBytes(c.PrivateBytes, start.Name)}, start)
+}
+
 // SpliceTimeType is the splice_time() structure carrying a PTS-domain time.
 // ptsTime is optional (absent indicates a time-specified-flag of 0 in the
 // binary form).
@@ -459,6 +469,39 @@ type PrivateDescriptorType struct {
 	PrivateBytes  string     `xml:"PrivateBytes,omitempty"` // xsd:hexBinary
 }
 
+// MarshalXML writes PrivateBytes in the namespace of its parent.
+func (d *PrivateDescriptorType) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	start.Name = replayedName(d.XMLName, start.Name)
+	return e.EncodeElement(struct {
+		DescriptorTag uint8      `xml:"descriptorTag,attr"`
+		Identifier    uint32     `xml:"identifier,attr"`
+		AnyAttrs      []xml.Attr `xml:",any,attr"`
+		Ext           *ExtType   `xml:"Ext,omitempty"`
+		PrivateBytes  *privateBytes
+	}{d.DescriptorTag, d.Identifier, d.AnyAttrs, d.Ext, newPrivateBytes(d.PrivateBytes, start.Name)}, start)
+}
+
+// privateBytes is a PrivateBytes element in the namespace of its parent.
+type privateBytes struct {
+	XMLName xml.Name
+	Value   string `xml:",chardata"`
+}
+
+func newPrivateBytes(value string, parent xml.Name) *privateBytes {
+	if value == "" {
+		return nil
+	}
+	return &privateBytes{XMLName: xml.Name{Space: parent.Space, Local: "PrivateBytes"}, Value: value}
+}
+
+// replayedName returns the captured name if there is one.
+func replayedName(captured, name xml.Name) xml.Name {
+	if captured.Local != "" {
+		return captured
+	}
+	return name
+}
+
 // ExtType is the SCTE-35 extensibility element. It can appear inside almost
 // every SCTE-35 type and accepts arbitrary attributes and child elements
 // (xs:any processContents="lax"). InnerXML captures the raw nested XML so
-- 
2.43.0


From b12a8c5ae6ebd64a7aaa9e0e815b905210a2d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:16 +0000
Subject: [PATCH 28/58] fix: declare the namespace of a tag in the same place
 when it was read as an attribute

---
 xml/marshal.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 3a9ede6..9bfc9f3 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -916,9 +917,31 @@ func (p *printer) writeStart(start *StartElement) error {
 		p.WriteString(e.name)
 	}
 
+	// The declaration of the namespace of the tag comes first, also when it is an
+	// attribute that has been read.
+	own := -1
+	if e.xmlns != "" {
+		name := Name{Local: xmlnsPrefix}
+		if e.prefix != "" {
+			name = Name{Space: xmlnsURL, Local: e.prefix}
+		}
+		own = slices.IndexFunc(start.Attr, func(attr Attr) bool { return attr.Name == name })
+	}
+	if own >= 0 {
+		p.WriteByte(' ')
+		if e.prefix != "" {
+			p.writePrefixAttr(e.prefix, start.Attr[own].Value)
+		} else {
+			e.defaultNS = &start.Attr[own].Value
+			p.WriteString(`xmlns="`)
+			p.EscapeString(start.Attr[own].Value)
+			p.WriteByte('"')
+		}
+	}
+
 	// Attributes
 	for i, attr := range start.Attr {
-		if attr.Name.Local == "" || declaredBefore(start.Attr[:i], attr.Name) {
+		if attr.Name.Local == "" || i == own || declaredBefore(start.Attr[:i], attr.Name) {
 			continue
 		}
 		prefix, local := splitPrefixed(attr.Name.Local)
-- 
2.43.0


From ac9f3f5cc4bf3dfa222252e9697c3456e5edc63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 29/58] fix: reuse the prefix declared instead of a taken one

---
 xml/marshal.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 9bfc9f3..e07b093 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -449,13 +449,14 @@ func (p *printer) createPrefix(uri, preferred string) (string, bool) {
 	if len(p.elements) == 0 {
 		return p.getPrefix(uri), false
 	}
-	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "" || uri == xmlURL) {
+	e := &p.elements[len(p.elements)-1]
+	taken := e.prefixToNS[preferred] != "" && e.prefixToNS[preferred] != uri
+	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "" || taken || uri == xmlURL) {
 		p.declarePrefix(prefix, uri)
 		return prefix, false
 	}
 
 	// Need to define a new namespace prefix
-	e := &p.elements[len(p.elements)-1]
 
 	// Pick a name. Try to use the final element of the path but fall back to _.
 	prefix := preferred
-- 
2.43.0


From 30e2d09206de4d8e17a0e69e9619ef2e295b13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 30/58] fix: reject character references to surrogates

---
 xml/xml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml/xml.go b/xml/xml.go
index c9fa411..1e3729d 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1109,7 +1109,7 @@ Input:
 					s := string(d.buf.Bytes()[start:])
 					d.buf.WriteByte(';')
 					n, err := strconv.ParseUint(s, base, 64)
-					if err == nil && n <= unicode.MaxRune {
+					if err == nil && n <= unicode.MaxRune && utf8.ValidRune(rune(n)) {
 						text = string(rune(n))
 						haveText = true
 					}
-- 
2.43.0


From e857b23ea0dca492b4665e75f5d661f520623566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:15 +0000
Subject: [PATCH 31/58] fix: require white space before the attributes of a tag

---
 xml/xml.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index 1e3729d..1cfbf6e 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -832,7 +832,7 @@ func (d *Decoder) rawToken() (Token, error) {
 
 	attr = make([]Attr, 0, 8)
 	for {
-		d.space()
+		spaced := d.space()
 		if b, ok = d.mustgetc(); !ok {
 			if len(attr) > 0 && !d.Strict {
 				break // When not strict, an attribute might end with EOF
@@ -862,6 +862,10 @@ func (d *Decoder) rawToken() (Token, error) {
 			}
 			return nil, d.err
 		}
+		if !spaced && d.Strict {
+			d.err = d.syntaxError("expected white space before attribute name in element")
+			return nil, d.err
+		}
 		d.space()
 		if b, ok = d.mustgetc(); !ok {
 			return nil, d.err
@@ -924,18 +928,19 @@ func (d *Decoder) attrval() []byte {
 	return d.buf.Bytes()
 }
 
-// Skip spaces if any
-func (d *Decoder) space() {
+// Skip spaces if any, and report whether there were any.
+func (d *Decoder) space() (any bool) {
 	for {
 		b, ok := d.getc()
 		if !ok {
-			return
+			return any
 		}
 		switch b {
 		case ' ', '\r', '\n', '\t':
+			any = true
 		default:
 			d.ungetc(b)
-			return
+			return any
 		}
 	}
 }
-- 
2.43.0


From 5d791a93edfb1f435c629b18fbc34e74a741d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:15 +0000
Subject: [PATCH 32/58] fix: reject repeated attributes

---
 xml/xml.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xml/xml.go b/xml/xml.go
index 1cfbf6e..308f3e8 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -887,6 +887,10 @@ func (d *Decoder) rawToken() (Token, error) {
 		}
 		attr = append(attr, a)
 	}
+	if d.Strict && repeated(attr) {
+		d.err = d.syntaxError("repeated attribute in element")
+		return nil, d.err
+	}
 	if empty {
 		d.needClose = true
 		d.toClose = name
@@ -894,6 +898,25 @@ func (d *Decoder) rawToken() (Token, error) {
 	return StartElement{name, attr}, nil
 }
 
+// repeated reports whether two of the attributes have the same name.
+func repeated(attr []Attr) bool {
+	if len(attr) > 32 {
+		seen := make(map[Name]bool, len(attr))
+		for i := range attr {
+			seen[attr[i].Name] = true
+		}
+		return len(seen) < len(attr)
+	}
+	for i := range attr {
+		for j := range i {
+			if attr[i].Name == attr[j].Name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (d *Decoder) attrval() []byte {
 	b, ok := d.mustgetc()
 	if !ok {
-- 
2.43.0


From 94a5510bc55f5441007b6d90004fdcfe128e1dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:06 +0000
Subject: [PATCH 33/58] fix: reject illegal characters in comments,
 instructions and directives

---
 xml/xml.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index 308f3e8..a1f30ca 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -662,6 +662,9 @@ func (d *Decoder) rawToken() (Token, error) {
 		}
 		data := d.buf.Bytes()
 		data = data[0 : len(data)-2] // chop ?>
+		if !d.checkCharacters(data) {
+			return nil, d.err
+		}
 
 		if target == "xml" {
 			content := string(data)
@@ -724,6 +727,9 @@ func (d *Decoder) rawToken() (Token, error) {
 			}
 			data := d.buf.Bytes()
 			data = data[0 : len(data)-3] // chop -->
+			if !d.checkCharacters(data) {
+				return nil, d.err
+			}
 			return Comment(data), nil
 
 		case '[': // <![
@@ -812,7 +818,11 @@ func (d *Decoder) rawToken() (Token, error) {
 				d.buf.WriteByte(' ')
 			}
 		}
-		return Directive(d.buf.Bytes()), nil
+		data := d.buf.Bytes()
+		if !d.checkCharacters(data) {
+			return nil, d.err
+		}
+		return Directive(data), nil
 	}
 
 	// Must be an open element like <a href="foo">
@@ -1208,22 +1218,28 @@ Input:
 	data := d.buf.Bytes()
 	data = data[0 : len(data)-trunc]
 
-	// Inspect each rune for being a disallowed character.
-	buf := data
-	for len(buf) > 0 {
-		r, size := utf8.DecodeRune(buf)
+	if !d.checkCharacters(data) {
+		return nil
+	}
+	return data
+}
+
+// checkCharacters inspects each rune of data for being a disallowed character.
+// If there is one, it returns false and leaves the error in d.err.
+func (d *Decoder) checkCharacters(data []byte) bool {
+	for len(data) > 0 {
+		r, size := utf8.DecodeRune(data)
 		if r == utf8.RuneError && size == 1 {
 			d.err = d.syntaxError("invalid UTF-8")
-			return nil
+			return false
 		}
-		buf = buf[size:]
+		data = data[size:]
 		if !isInCharacterRange(r) {
 			d.err = d.syntaxError(fmt.Sprintf("illegal character code %U", r))
-			return nil
+			return false
 		}
 	}
-
-	return data
+	return true
 }
 
 // Decide whether the given rune is in the XML Character Range, per
-- 
2.43.0


From fa4c50117df123517e3a2b03b4d9ef052b83bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:26 +0000
Subject: [PATCH 34/58] fix: require white space after the target of an
 instruction

---
 xml/xml.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xml/xml.go b/xml/xml.go
index a1f30ca..785929f 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -647,7 +647,7 @@ func (d *Decoder) rawToken() (Token, error) {
 			}
 			return nil, d.err
 		}
-		d.space()
+		spaced := d.space()
 		d.buf.Reset()
 		var b0 byte
 		for {
@@ -662,6 +662,10 @@ func (d *Decoder) rawToken() (Token, error) {
 		}
 		data := d.buf.Bytes()
 		data = data[0 : len(data)-2] // chop ?>
+		if len(data) > 0 && !spaced && d.Strict {
+			d.err = d.syntaxError("expected white space after target name")
+			return nil, d.err
+		}
 		if !d.checkCharacters(data) {
 			return nil, d.err
 		}
-- 
2.43.0


From 914766173d69b4bdf4967a4fe65b4ff26cd3feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:36 +0000
Subject: [PATCH 35/58] fix: end the namespaces of elements closed implicitly

---
 xml/xml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml/xml.go b/xml/xml.go
index 785929f..8b792e7 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -524,7 +524,7 @@ func (d *Decoder) popElement(t *EndElement) bool {
 			d.needClose = true
 			d.toClose = t.Name
 			t.Name = s.name
-			return true
+			break
 		}
 		d.err = d.syntaxError("element <" + s.name.Local + "> closed by </" + name.Local + ">")
 		return false
-- 
2.43.0


From 9753022f7bf35da38bf56c7a8cf02f2bd87fb033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:07 +0000
Subject: [PATCH 36/58] fix: reject documents with anything but white space and
 comments around the MPD element

---
 mpd/io.go | 53 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/mpd/io.go b/mpd/io.go
index 6c33a44..8035a29 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -1,6 +1,9 @@
 package mpd
 
 import (
+	"bytes"
+	"errors"
+	"fmt"
 	"io"
 	"os"
 	"strings"
@@ -27,15 +30,7 @@ func ReadFromFile(path string) (*MPD, error) {
 	if err != nil {
 		return nil, err
 	}
-	mpd := MPD{}
-	err = xml.Unmarshal(data, &mpd)
-	if err != nil {
-		return nil, err
-	}
-	// The output has no prefix for the MPD namespace, so it must be the default one.
-	mpd.XMLNs = mpd.XMLName.Space
-	mpd.SetParents()
-	return &mpd, nil
+	return MPDFromBytes(data)
 }
 
 // ReadFromString reads and unmarshals an MPD from a string
@@ -46,16 +41,54 @@ func ReadFromString(str string) (*MPD, error) {
 // MPDFromBytes reads and unmarshals an MPD from a byte slice
 func MPDFromBytes(data []byte) (*MPD, error) {
 	mpd := MPD{}
-	err := xml.Unmarshal(data, &mpd)
+	dec := xml.NewDecoder(bytes.NewReader(data))
+	start, err := nextElement(dec, true)
 	if err != nil {
 		return nil, err
 	}
+	if err := dec.DecodeElement(&mpd, start); err != nil {
+		return nil, err
+	}
+	// The MPD element must be the only one of the document.
+	switch start, err := nextElement(dec, false); {
+	case err == nil:
+		return nil, fmt.Errorf("element <%s> after the end of the MPD", start.Name.Local)
+	case err != io.EOF:
+		return nil, err
+	}
 	// The output has no prefix for the MPD namespace, so it must be the default one.
 	mpd.XMLNs = mpd.XMLName.Space
 	mpd.SetParents()
 	return &mpd, nil
 }
 
+// nextElement returns the next start element outside of the root element of an
+// XML document, where only comments, processing instructions, white space, and,
+// in the prolog, a byte order mark and declarations may be found.
+func nextElement(dec *xml.Decoder, prolog bool) (*xml.StartElement, error) {
+	for first := prolog; ; first = false {
+		tok, err := dec.Token()
+		if err != nil {
+			return nil, err
+		}
+		switch t := tok.(type) {
+		case xml.StartElement:
+			return &t, nil
+		case xml.CharData:
+			if first {
+				t = bytes.TrimPrefix(t, []byte("\ufeff"))
+			}
+			if len(bytes.Trim(t, " \t\r\n")) > 0 {
+				return nil, fmt.Errorf("text %.20q outside of the MPD", t)
+			}
+		case xml.Directive:
+			if !prolog {
+				return nil, errors.New("declaration after the end of the MPD")
+			}
+		}
+	}
+}
+
 // WriteXML streams the XML encoding of elem to w, with indentation according to
 // indent and optionally prefixing an XML declaration header.  It returns the
 // number of bytes written.  The encoder is pooled for efficiency; do not hold w
-- 
2.43.0


From 600f7ced7ee0d187035cf5248ac66f3ef720640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:35 +0000
Subject: [PATCH 37/58] fix: report a short write of the XML header

---
 mpd/io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpd/io.go b/mpd/io.go
index 8035a29..e1223ea 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -21,6 +21,9 @@ type countingWriter struct {
 func (cw *countingWriter) Write(p []byte) (int, error) {
 	n, err := cw.w.Write(p)
 	cw.n += n
+	if n < len(p) && err == nil {
+		err = io.ErrShortWrite
+	}
 	return n, err
 }
 
-- 
2.43.0


From 217ab2846cc80fd9a3011c38ab72f677b3e8048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:18 +0000
Subject: [PATCH 38/58] fix: keep carriage returns and replace illegal
 characters in CDATA sections

---
 xml/xml.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index 8b792e7..ffe80cb 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -2107,6 +2107,7 @@ var (
 	cdataStart  = []byte("<![CDATA[")
 	cdataEnd    = []byte("]]>")
 	cdataEscape = []byte("]]]]><![CDATA[>")
+	cdataCR     = []byte("]]>&#xD;<![CDATA[")
 )
 
 // emitCDATA writes to w the CDATA-wrapped plain text data s.
@@ -2119,22 +2120,35 @@ func emitCDATA(w io.Writer, s []byte) error {
 		return err
 	}
 
-	for {
-		before, after, ok := bytes.Cut(s, cdataEnd)
-		if !ok {
-			break
+	// There are no references in a CDATA section, so what needs one is written
+	// between two sections.
+	var esc []byte
+	last := 0
+	for i := 0; i < len(s); {
+		r, width := utf8.DecodeRune(s[i:])
+		start := i
+		i += width
+		switch {
+		case r == ']' && bytes.HasPrefix(s[start:], cdataEnd):
+			i = start + len(cdataEnd)
+			esc = cdataEscape
+		case r == '\r':
+			esc = cdataCR
+		case !isInCharacterRange(r) || (r == 0xFFFD && width == 1):
+			esc = escFFFD
+		default:
+			continue
 		}
-		// Found a nested CDATA directive end.
-		if _, err := w.Write(before); err != nil {
+		if _, err := w.Write(s[last:start]); err != nil {
 			return err
 		}
-		if _, err := w.Write(cdataEscape); err != nil {
+		if _, err := w.Write(esc); err != nil {
 			return err
 		}
-		s = after
+		last = i
 	}
 
-	if _, err := w.Write(s); err != nil {
+	if _, err := w.Write(s[last:]); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 054a363e565abb322368b63a087b93df1cefb8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:18 +0000
Subject: [PATCH 39/58] fix: do not wrap the end of the index range in
 SetSegmentBase

---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 203029f..015b5a3 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -487,7 +487,7 @@ func (r *RepresentationType) Parent() *AdaptationSetType {
 // SetSegmentBase sets SegmentBaseType for RepresentationType.
 func (r *RepresentationType) SetSegmentBase(initSize, sidxSize uint32, indexRangeExact bool) {
 	initRange := fmt.Sprintf("0-%d", initSize-1)
-	indexRange := fmt.Sprintf("%d-%d", initSize, initSize+sidxSize-1)
+	indexRange := fmt.Sprintf("%d-%d", initSize, uint64(initSize)+uint64(sidxSize)-1)
 	r.SegmentBase = &SegmentBaseType{
 		IndexRange: indexRange,
 		Initialization: &URLType{
-- 
2.43.0


From 7ad55788ad07e8babee2a1b1990df7f5d49cb6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:11 +0000
Subject: [PATCH 40/58] fix: refuse comments, instructions and directives that
 cannot be read back

---
 xml/marshal.go | 16 ++++++++++++++++
 xml/xml.go     | 12 ++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index e07b093..fe3cc5b 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -272,6 +272,12 @@ func (enc *Encoder) EncodeToken(t Token) error {
 		if bytes.Contains(t, endComment) {
 			return fmt.Errorf("xml: EncodeToken of Comment containing --> marker")
 		}
+		if bytes.Contains(t, ddBytes) || bytes.HasSuffix(t, ddBytes[:1]) {
+			return fmt.Errorf("xml: EncodeToken of Comment containing -- or ending in -")
+		}
+		if !onlyCharacters(t) {
+			return fmt.Errorf("xml: EncodeToken of Comment containing illegal characters")
+		}
 		p.WriteString("<!--")
 		p.Write(t)
 		p.WriteString("-->")
@@ -288,6 +294,9 @@ func (enc *Encoder) EncodeToken(t Token) error {
 		if bytes.Contains(t.Inst, endProcInst) {
 			return fmt.Errorf("xml: EncodeToken of ProcInst containing ?> marker")
 		}
+		if !onlyCharacters(t.Inst) {
+			return fmt.Errorf("xml: EncodeToken of ProcInst containing illegal characters")
+		}
 		p.WriteString("<?")
 		p.WriteString(t.Target)
 		if len(t.Inst) > 0 {
@@ -299,6 +308,13 @@ func (enc *Encoder) EncodeToken(t Token) error {
 		if !isValidDirective(t) {
 			return fmt.Errorf("xml: EncodeToken of Directive containing wrong < or > markers")
 		}
+		// These would be read as a comment, a CDATA section or not at all.
+		if len(t) == 0 || bytes.IndexByte([]byte("-[<\"'"), t[0]) >= 0 {
+			return fmt.Errorf("xml: EncodeToken of Directive with invalid start")
+		}
+		if !onlyCharacters(t) {
+			return fmt.Errorf("xml: EncodeToken of Directive containing illegal characters")
+		}
 		p.WriteString("<!")
 		p.Write(t)
 		p.WriteString(">")
diff --git a/xml/xml.go b/xml/xml.go
index ffe80cb..d2c4cfa 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1258,6 +1258,18 @@ func isInCharacterRange(r rune) (inrange bool) {
 		r >= 0x10000 && r <= 0x10FFFF
 }
 
+// onlyCharacters reports whether b is valid UTF-8 made of XML characters only.
+func onlyCharacters(b []byte) bool {
+	for len(b) > 0 {
+		r, width := utf8.DecodeRune(b)
+		if !isInCharacterRange(r) || r == utf8.RuneError && width == 1 {
+			return false
+		}
+		b = b[width:]
+	}
+	return true
+}
+
 // Get namespace name: name with a : stuck in the middle.
 // The part before the : is the namespace identifier.
 func (d *Decoder) nsname() (name Name, ok bool) {
-- 
2.43.0


From f1506a6f0262a881296d4d3781477af152c91ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:23 +0000
Subject: [PATCH 41/58] fix: allow the XML declaration only as the first token
 of the stream

---
 xml/marshal.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index fe3cc5b..0a93f9e 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -192,6 +192,7 @@ func ReleaseEncoder(enc *Encoder) {
 	enc.p.indentedIn = false
 	enc.p.putNewline = false
 	enc.p.mixed = 0
+	enc.p.started = false
 	enc.p.closed = false
 	enc.p.err = nil
 	// Truncate the elements slice without releasing its backing array.
@@ -285,7 +286,7 @@ func (enc *Encoder) EncodeToken(t Token) error {
 	case ProcInst:
 		// First token to be encoded which is also a ProcInst with target of xml
 		// is the xml declaration. The only ProcInst where target of xml is allowed.
-		if t.Target == "xml" && p.w.Buffered() != 0 {
+		if t.Target == "xml" && p.started {
 			return fmt.Errorf("xml: EncodeToken of ProcInst xml target only valid for xml declaration, first token encoded")
 		}
 		if !isNameString(t.Target) {
@@ -427,6 +428,7 @@ type printer struct {
 	putNewline bool
 	mixed      int // number of open elements with character data before child elements
 	elements   []element
+	started    bool // something has been written
 	closed     bool
 	err        error
 }
@@ -1240,6 +1242,7 @@ func (p *printer) Write(b []byte) (n int, err error) {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = p.started || len(b) > 0
 		n, p.err = p.w.Write(b)
 	}
 	return n, p.err
@@ -1251,6 +1254,7 @@ func (p *printer) WriteString(s string) (n int, err error) {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = p.started || len(s) > 0
 		n, p.err = p.w.WriteString(s)
 	}
 	return n, p.err
@@ -1262,6 +1266,7 @@ func (p *printer) WriteByte(c byte) error {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = true
 		p.err = p.w.WriteByte(c)
 	}
 	return p.err
-- 
2.43.0


From be64507f004641ee5c2ff0c57eff27c86daab1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:12 +0000
Subject: [PATCH 42/58] fix: do not take the start of a comment in a directive
 for its end

---
 xml/marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 0a93f9e..e9e04f0 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -333,12 +333,13 @@ func isValidDirective(dir Directive) bool {
 		depth     int
 		inquote   uint8
 		incomment bool
+		begin     int // index after the start of the comment
 	)
 	for i, c := range dir {
 		switch {
 		case incomment:
 			if c == '>' {
-				if n := 1 + i - len(endComment); n >= 0 && bytes.Equal(dir[n:i+1], endComment) {
+				if n := 1 + i - len(endComment); n >= begin && bytes.Equal(dir[n:i+1], endComment) {
 					incomment = false
 				}
 			}
@@ -353,6 +354,7 @@ func isValidDirective(dir Directive) bool {
 		case c == '<':
 			if i+len(begComment) < len(dir) && bytes.Equal(dir[i:i+len(begComment)], begComment) {
 				incomment = true
+				begin = i + len(begComment)
 			} else {
 				depth++
 			}
-- 
2.43.0


From d89118eb0cefc1b3affa278cc8857c1cf0e2816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:47 +0000
Subject: [PATCH 43/58] fix: keep the attributes of the start element of
 EncodeElement with struct values

---
 xml/marshal.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index e9e04f0..a3a868f 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -660,9 +660,7 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	}
 
 	// Pre-size start.Attr to avoid repeated backing-array copies.
-	if cap(start.Attr) < tinfo.nAttrs {
-		start.Attr = make([]Attr, 0, tinfo.nAttrs)
-	}
+	start.Attr = slices.Grow(start.Attr, tinfo.nAttrs)
 
 	// Attributes
 	for i := range tinfo.fields {
-- 
2.43.0


From 4841a303265f25151ea9a704cc8e6aa75b3d8155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:47 +0000
Subject: [PATCH 44/58] fix: refuse comment fields with illegal characters

---
 xml/marshal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index a3a868f..8a9b031 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -1179,6 +1179,9 @@ func (p *printer) marshalStruct(tinfo *typeInfo, val reflect.Value) error {
 			switch k {
 			case reflect.String:
 				s := vf.String()
+				if !onlyCharacters([]byte(s)) {
+					return fmt.Errorf("xml: comment contains illegal characters")
+				}
 				dashDash = strings.Contains(s, "--")
 				dashLast = s[len(s)-1] == '-'
 				if !dashDash {
@@ -1186,6 +1189,9 @@ func (p *printer) marshalStruct(tinfo *typeInfo, val reflect.Value) error {
 				}
 			case reflect.Slice:
 				b := vf.Bytes()
+				if !onlyCharacters(b) {
+					return fmt.Errorf("xml: comment contains illegal characters")
+				}
 				dashDash = bytes.Contains(b, ddBytes)
 				dashLast = b[len(b)-1] == '-'
 				if !dashDash {
-- 
2.43.0


From 20f24fa6c94d9684d9ba99cd133a44b95cb93d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:48 +0000
Subject: [PATCH 45/58] fix: read fields with a namespace and a path as they
 are written

---
 xml/read.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xml/read.go b/xml/read.go
index 1c19b12..8256cf1 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -706,7 +706,7 @@ func (d *Decoder) unmarshalPath(tinfo *typeInfo, sv reflect.Value, parents []str
 Loop:
 	for i := range tinfo.fields {
 		finfo := &tinfo.fields[i]
-		if finfo.flags&fElement == 0 || len(finfo.parents) < len(parents) || finfo.xmlns != "" && finfo.xmlns != start.Name.Space {
+		if finfo.flags&fElement == 0 || len(finfo.parents) < len(parents) {
 			continue
 		}
 		for j := range parents {
@@ -714,7 +714,8 @@ Loop:
 				continue Loop
 			}
 		}
-		if len(finfo.parents) == len(parents) && finfo.name == start.Name.Local {
+		// The namespace is that of the innermost element.
+		if len(finfo.parents) == len(parents) && finfo.name == start.Name.Local && (finfo.xmlns == "" || finfo.xmlns == start.Name.Space) {
 			// It's a perfect match, unmarshal the field.
 			return true, d.unmarshal(finfo.value(sv, initNilPointers), start, depth+1)
 		}
-- 
2.43.0


From b841f5dfad87854ac0bc7980aa94e072103cc806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:49 +0000
Subject: [PATCH 46/58] fix: write nothing for nil pointers to text marshalers
 in attributes and character data

---
 xml/marshal.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 8a9b031..297fc28 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -720,10 +720,16 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	return p.cachedWriteError()
 }
 
+// nilReceiver reports whether v is a nil pointer that has the methods of typ from
+// the type it points to, which cannot be called then.
+func nilReceiver(v reflect.Value, typ reflect.Type) bool {
+	return v.Kind() == reflect.Pointer && v.IsNil() && v.Type().Elem().Implements(typ)
+}
+
 // marshalAttr marshals an attribute with the given name and value, adding to start.Attr.
 func (p *printer) marshalAttr(start *StartElement, name Name, val reflect.Value) error {
 	tai := getTypeImpl(val.Type())
-	if val.CanInterface() && tai.marshalerAttr {
+	if val.CanInterface() && tai.marshalerAttr && !nilReceiver(val, marshalerAttrType) {
 		attr, err := val.Interface().(MarshalerAttr).MarshalXMLAttr(name)
 		if err != nil {
 			return err
@@ -748,7 +754,7 @@ func (p *printer) marshalAttr(start *StartElement, name Name, val reflect.Value)
 		}
 	}
 
-	if val.CanInterface() && tai.textMarshaler {
+	if val.CanInterface() && tai.textMarshaler && !nilReceiver(val, textMarshalerType) {
 		text, err := val.Interface().(encoding.TextMarshaler).MarshalText()
 		if err != nil {
 			return err
@@ -1104,7 +1110,7 @@ func (p *printer) marshalStruct(tinfo *typeInfo, val reflect.Value) error {
 				p.mixed++
 				defer func() { p.mixed-- }()
 			}
-			if vf.CanInterface() && vf.Type().Implements(textMarshalerType) {
+			if vf.CanInterface() && vf.Type().Implements(textMarshalerType) && !nilReceiver(vf, textMarshalerType) {
 				data, err := vf.Interface().(encoding.TextMarshaler).MarshalText()
 				if err != nil {
 					return err
-- 
2.43.0


From 3b9e708225099a2e3a1ec4f60bb2e26ca4d91f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:50 +0000
Subject: [PATCH 47/58] fix: read character data into nil pointers to text
 unmarshalers

---
 xml/read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xml/read.go b/xml/read.go
index 8256cf1..fed09ed 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -588,6 +588,9 @@ Loop:
 		}
 	}
 
+	if saveData.IsValid() && saveData.Kind() == reflect.Pointer && saveData.IsNil() {
+		saveData.Set(reflect.New(saveData.Type().Elem()))
+	}
 	if saveData.IsValid() && saveData.CanInterface() && saveData.Type().Implements(textUnmarshalerType) {
 		if err := saveData.Interface().(encoding.TextUnmarshaler).UnmarshalText(data); err != nil {
 			return err
-- 
2.43.0


From c31c8d3330c37702aa45c8d9d6ac4d6e01825be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:09 +0000
Subject: [PATCH 48/58] fix: do not indent elements before character data

---
 xml/marshal.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 297fc28..05f72b4 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -1082,8 +1082,38 @@ func indirect(vf reflect.Value) reflect.Value {
 	return vf
 }
 
+// hasCharData reports whether a field of val is written as character data.
+func hasCharData(tinfo *typeInfo, val reflect.Value) bool {
+	for i := range tinfo.fields {
+		finfo := &tinfo.fields[i]
+		if mode := finfo.flags & fMode; mode != fCDATA && mode != fCharData {
+			continue
+		}
+		vf := finfo.value(val, dontInitNilPointers)
+		if !vf.IsValid() {
+			continue
+		}
+		switch vf = indirect(vf); vf.Kind() {
+		case reflect.String, reflect.Slice:
+			ti := getTypeImpl(vf.Type())
+			if vf.Len() > 0 || ti.textMarshaler || ti.addrTextMarshaler {
+				return true
+			}
+		case reflect.Pointer, reflect.Interface:
+		default:
+			return true
+		}
+	}
+	return false
+}
+
 func (p *printer) marshalStruct(tinfo *typeInfo, val reflect.Value) error {
 	s := parentStack{p: p}
+	if hasCharData(tinfo, val) {
+		// Indentation would add to the character data.
+		p.mixed++
+		defer func() { p.mixed-- }()
+	}
 	for i := range tinfo.fields {
 		finfo := &tinfo.fields[i]
 		if finfo.flags&fAttr != 0 {
@@ -1105,11 +1135,6 @@ func (p *printer) marshalStruct(tinfo *typeInfo, val reflect.Value) error {
 			if err := s.trim(finfo.parents); err != nil {
 				return err
 			}
-			if !isEmptyValue(indirect(vf)) {
-				// Indentation would add to the character data.
-				p.mixed++
-				defer func() { p.mixed-- }()
-			}
 			if vf.CanInterface() && vf.Type().Implements(textMarshalerType) && !nilReceiver(vf, textMarshalerType) {
 				data, err := vf.Interface().(encoding.TextMarshaler).MarshalText()
 				if err != nil {
-- 
2.43.0


From bc847a1238f8a81cd6f2e9484825527273dcb158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:10 +0000
Subject: [PATCH 49/58] fix: keep elements without namespace out of the default
 namespace of an ancestor

---
 xml/marshal.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 05f72b4..6ee8258 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -462,6 +462,16 @@ func (p *printer) getPrefix(uri string) string {
 	return ""
 }
 
+// defaultNamespace returns the default namespace in scope.
+func (p *printer) defaultNamespace() string {
+	for i := len(p.elements) - 1; i >= 0; i-- {
+		if ns := p.elements[i].defaultNS; ns != nil {
+			return *ns
+		}
+	}
+	return ""
+}
+
 // createPrefix finds a prefix to use for the given namespace URI,
 // defining a new prefix if necessary. It returns the prefix.
 // If set, it will attempt to use preferred as the prefix.
@@ -689,7 +699,7 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	// If an empty name was found, namespace is overridden with an empty space
 	if tinfo.xmlname != nil && start.Name.Space == "" &&
 		tinfo.xmlname.xmlns == "" && tinfo.xmlname.name == "" &&
-		len(p.elements) != 0 && p.elements[len(p.elements)-1].xmlns != "" {
+		len(p.elements) != 0 && (p.elements[len(p.elements)-1].xmlns != "" || p.defaultNamespace() != "") {
 		start.Attr = append(start.Attr, Attr{Name{Space: "", Local: xmlnsPrefix}, ""})
 	}
 
-- 
2.43.0


From 1c7fbd46f293dd93c7707fe0d465a7154f4bfa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:30 +0000
Subject: [PATCH 50/58] fix: map elements, attributes and text to pointers to
 pointers

---
 xml/read.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xml/read.go b/xml/read.go
index fed09ed..5ea8c79 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -253,7 +253,7 @@ func (d *Decoder) unmarshalTextInterface(val encoding.TextUnmarshaler) error {
 
 // unmarshalAttr unmarshals a single XML attribute into val.
 func (d *Decoder) unmarshalAttr(val reflect.Value, attr Attr) error {
-	if val.Kind() == reflect.Pointer {
+	for val.Kind() == reflect.Pointer {
 		if val.IsNil() {
 			val.Set(reflect.New(val.Type().Elem()))
 		}
@@ -349,7 +349,7 @@ func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) e
 		}
 	}
 
-	if val.Kind() == reflect.Pointer {
+	for val.Kind() == reflect.Pointer {
 		if val.IsNil() {
 			val.Set(reflect.New(val.Type().Elem()))
 		}
@@ -588,6 +588,12 @@ Loop:
 		}
 	}
 
+	for saveData.Kind() == reflect.Pointer && saveData.Type().Elem().Kind() == reflect.Pointer {
+		if saveData.IsNil() {
+			saveData.Set(reflect.New(saveData.Type().Elem()))
+		}
+		saveData = saveData.Elem()
+	}
 	if saveData.IsValid() && saveData.Kind() == reflect.Pointer && saveData.IsNil() {
 		saveData.Set(reflect.New(saveData.Type().Elem()))
 	}
@@ -634,7 +640,7 @@ Loop:
 func copyValue(dst reflect.Value, src []byte) (err error) {
 	dst0 := dst
 
-	if dst.Kind() == reflect.Pointer {
+	for dst.Kind() == reflect.Pointer {
 		if dst.IsNil() {
 			dst.Set(reflect.New(dst.Type().Elem()))
 		}
-- 
2.43.0


From 8b3ac300145d1468799f8ef19c21113615da19dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:31 +0000
Subject: [PATCH 51/58] fix: do not panic on nil interfaces with marshaler
 methods

---
 xml/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 6ee8258..6a29e81 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -731,8 +731,11 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 }
 
 // nilReceiver reports whether v is a nil pointer that has the methods of typ from
-// the type it points to, which cannot be called then.
+// the type it points to, or a nil interface, which cannot be called then.
 func nilReceiver(v reflect.Value, typ reflect.Type) bool {
+	if v.Kind() == reflect.Interface {
+		return v.IsNil()
+	}
 	return v.Kind() == reflect.Pointer && v.IsNil() && v.Type().Elem().Implements(typ)
 }
 
-- 
2.43.0


From a321fb13350b11041b7ce2ee4c36205787f9db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:32 +0000
Subject: [PATCH 52/58] fix: write attributes and text through pointers and
 interfaces

---
 xml/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 6a29e81..a918299 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -794,7 +794,7 @@ func (p *printer) marshalAttr(start *StartElement, name Name, val reflect.Value)
 		if val.IsNil() {
 			return nil
 		}
-		val = val.Elem()
+		return p.marshalAttr(start, name, val.Elem())
 	}
 
 	// Walk slices.
@@ -1148,6 +1148,9 @@ func (p *printer) marshalStruct(tinfo *typeInfo, val reflect.Value) error {
 			if err := s.trim(finfo.parents); err != nil {
 				return err
 			}
+			for (vf.Kind() == reflect.Interface || vf.Kind() == reflect.Pointer) && !vf.IsNil() && !vf.Type().Implements(textMarshalerType) {
+				vf = vf.Elem()
+			}
 			if vf.CanInterface() && vf.Type().Implements(textMarshalerType) && !nilReceiver(vf, textMarshalerType) {
 				data, err := vf.Interface().(encoding.TextMarshaler).MarshalText()
 				if err != nil {
-- 
2.43.0


From e7f7e274207aff3984c188aad790459ab350f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:32 +0000
Subject: [PATCH 53/58] fix: leave type parameters out of the names of elements

---
 xml/marshal.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index a918299..70b546e 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -658,11 +658,7 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 		start.Name.Space, start.Name.Local = finfo.xmlns, joinPrefixed(finfo.prefix, finfo.name)
 	}
 	if start.Name.Local == "" { // No or empty XMLName and still no tag name
-		name := typ.Name()
-		if i := strings.IndexByte(name, '['); i >= 0 {
-			// Truncate generic instantiation name. See issue 48318.
-			name = name[:i]
-		}
+		name := typeName(typ)
 		if name == "" {
 			return &UnsupportedTypeError{typ}
 		}
@@ -835,16 +831,22 @@ func defaultStart(typ reflect.Type, finfo *fieldInfo, startTemplate *StartElemen
 	} else if finfo != nil && finfo.name != "" {
 		start.Name.Local = joinPrefixed(finfo.prefix, finfo.name)
 		start.Name.Space = finfo.xmlns
-	} else if typ.Name() != "" {
-		start.Name.Local = typ.Name()
 	} else {
-		// Must be a pointer to a named type,
-		// since it has the Marshaler methods.
-		start.Name.Local = typ.Elem().Name()
+		if typ.Name() == "" && typ.Kind() == reflect.Pointer {
+			typ = typ.Elem()
+		}
+		start.Name.Local = typeName(typ)
 	}
 	return start
 }
 
+// typeName returns the name of typ without the parameters of a generic type.
+// See issue 48318.
+func typeName(typ reflect.Type) string {
+	name, _, _ := strings.Cut(typ.Name(), "[")
+	return name
+}
+
 // marshalInterface marshals a Marshaler interface value.
 func (p *printer) marshalInterface(val Marshaler, start StartElement) error {
 	// Push a marker onto the element stack so that MarshalXML
-- 
2.43.0


From 0f1100274b3680b131bd44c282dbb7ebfbb697a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:32 +0000
Subject: [PATCH 54/58] fix: leave other fields alone when an embedded struct
 has the XMLName

---
 xml/read.go     | 3 ++-
 xml/typeinfo.go | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/xml/read.go b/xml/read.go
index 5ea8c79..5095d41 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -468,7 +468,8 @@ func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) e
 			} else {
 				noValue = false
 			}
-			if !noValue {
+			// The XMLName of an embedded struct is left alone.
+			if !noValue && len(finfo.idx) == 1 {
 				fv := finfo.value(sv, initNilPointers)
 				if _, ok := fv.Interface().(Name); ok {
 					fv.Set(reflect.ValueOf(start.Name))
diff --git a/xml/typeinfo.go b/xml/typeinfo.go
index 6219bf2..ba5c834 100644
--- a/xml/typeinfo.go
+++ b/xml/typeinfo.go
@@ -117,7 +117,9 @@ func getTypeInfo(typ reflect.Type) (*typeInfo, error) {
 					}
 					if tinfo.xmlname == nil && inner.xmlname != nil && inner.xmlname.name != "" {
 						// to leave xmlname to nil and to avoid assigning unexported xmlname field
-						tinfo.xmlname = inner.xmlname
+						xmlname := *inner.xmlname
+						xmlname.idx = append([]int{i}, xmlname.idx...)
+						tinfo.xmlname = &xmlname
 					}
 					for _, finfo := range inner.fields {
 						finfo.idx = append([]int{i}, finfo.idx...)
-- 
2.43.0


From f3e116557a7ccc0e6d85355853ae123d9661720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:32 +0000
Subject: [PATCH 55/58] fix: write text and markup of named types, and text of
 byte arrays

---
 xml/marshal.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 70b546e..6a5e439 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -1200,9 +1200,13 @@ func (p *printer) marshalStruct(tinfo *typeInfo, val reflect.Value) error {
 				if err := emit(p, []byte(vf.String())); err != nil {
 					return err
 				}
-			case reflect.Slice:
-				if elem, ok := vf.Interface().([]byte); ok {
-					if err := emit(p, elem); err != nil {
+			case reflect.Slice, reflect.Array:
+				if vf.Type().Elem().Kind() == reflect.Uint8 {
+					_, data, err := p.marshalSimple(vf.Type(), vf)
+					if err != nil {
+						return err
+					}
+					if err := emit(p, data); err != nil {
 						return err
 					}
 				}
@@ -1261,13 +1265,12 @@ func (p *printer) marshalStruct(tinfo *typeInfo, val reflect.Value) error {
 
 		case fInnerXML:
 			vf = indirect(vf)
-			iface := vf.Interface()
-			switch raw := iface.(type) {
-			case []byte:
-				p.Write(raw)
+			if vf.Kind() == reflect.String {
+				p.WriteString(vf.String())
 				continue
-			case string:
-				p.WriteString(raw)
+			}
+			if vf.Kind() == reflect.Slice && vf.Type().Elem().Kind() == reflect.Uint8 {
+				p.Write(vf.Bytes())
 				continue
 			}
 
-- 
2.43.0


From 4982ceb41c1d3dec604e84986c839163458414d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:18 +0000
Subject: [PATCH 56/58] fix: split lists of words at the white space of XML
 only

---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 015b5a3..cd8b962 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -1025,7 +1025,7 @@ func (l *StringNoWhitespaceVectorType) MarshalXMLAttr(name xml.Name) (xml.Attr,
 
 // UnmarshalXMLAttr splits the attribute value into the values of the list.
 func (l *StringNoWhitespaceVectorType) UnmarshalXMLAttr(attr xml.Attr) error {
-	*l = strings.Fields(attr.Value)
+	*l = strings.FieldsFunc(attr.Value, func(r rune) bool { return strings.ContainsRune(" \t\r\n", r) })
 	return nil
 }
 
-- 
2.43.0


From 9852eb755728ea80e991b74640f942712d99a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:18 +0000
Subject: [PATCH 57/58] fix: trim only the white space of XML around numbers
 and booleans

---
 mpd/mpd.go  |  2 +-
 xml/read.go | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index cd8b962..5344e41 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -1271,7 +1271,7 @@ func (f *FloatInf64) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
 }
 
 func (f *FloatInf64) UnmarshalXMLAttr(attr xml.Attr) error {
-	val := strings.TrimSpace(attr.Value)
+	val := strings.Trim(attr.Value, " \t\r\n")
 	if val == "INF" {
 		*f = FloatInf64(math.Inf(+1))
 		return nil
diff --git a/xml/read.go b/xml/read.go
index 5095d41..8621aa2 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -638,6 +638,11 @@ Loop:
 	return nil
 }
 
+// trimSpace returns the text without the white space, in the sense of XML, around it.
+func trimSpace(text []byte) string {
+	return strings.Trim(string(text), " \t\r\n")
+}
+
 func copyValue(dst reflect.Value, src []byte) (err error) {
 	dst0 := dst
 
@@ -659,7 +664,7 @@ func copyValue(dst reflect.Value, src []byte) (err error) {
 			dst.SetInt(0)
 			return nil
 		}
-		itmp, err := strconv.ParseInt(strings.TrimSpace(string(src)), 10, dst.Type().Bits())
+		itmp, err := strconv.ParseInt(trimSpace(src), 10, dst.Type().Bits())
 		if err != nil {
 			return err
 		}
@@ -669,7 +674,7 @@ func copyValue(dst reflect.Value, src []byte) (err error) {
 			dst.SetUint(0)
 			return nil
 		}
-		utmp, err := strconv.ParseUint(strings.TrimSpace(string(src)), 10, dst.Type().Bits())
+		utmp, err := strconv.ParseUint(trimSpace(src), 10, dst.Type().Bits())
 		if err != nil {
 			return err
 		}
@@ -679,7 +684,7 @@ func copyValue(dst reflect.Value, src []byte) (err error) {
 			dst.SetFloat(0)
 			return nil
 		}
-		ftmp, err := strconv.ParseFloat(strings.TrimSpace(string(src)), dst.Type().Bits())
+		ftmp, err := strconv.ParseFloat(trimSpace(src), dst.Type().Bits())
 		if err != nil {
 			return err
 		}
@@ -689,7 +694,7 @@ func copyValue(dst reflect.Value, src []byte) (err error) {
 			dst.SetBool(false)
 			return nil
 		}
-		value, err := strconv.ParseBool(strings.TrimSpace(string(src)))
+		value, err := strconv.ParseBool(trimSpace(src))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From b48330a31c50041f7bf299ea68cbc16bc5b9a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:18 +0000
Subject: [PATCH 58/58] fix: write attributes in the namespace of their element
 with its prefix

---
 xml/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index 6a5e439..b63b0a1 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -938,6 +938,10 @@ func (p *printer) writeStart(start *StartElement) error {
 		if e.xmlns != "" && !spaceDefined {
 			e.prefix, prefixCreated = p.createPrefix(e.xmlns, e.prefix)
 		}
+		// It is declared before all others, and so preferred to them.
+		if e.xmlns != "" {
+			e.nsToPrefix[e.xmlns] = e.prefix
+		}
 		p.WriteString(e.prefix)
 		p.WriteByte(':')
 		p.WriteString(e.name)
-- 
2.43.0

