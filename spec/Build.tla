-------------------------------- MODULE Build --------------------------------
(* Documents built with the helpers.  A state is a sequence of elements, in  *)
(* the order in which the New functions made them; an element is             *)
(*   [a : its attributes, p : its profiles, kids : Seq of [n, id], t : text] *)
(* An argument is [v, c, w], an attribute value without its name.            *)
EXTENDS Doc, Naturals

DASH == "urn:mpeg:dash:schema:mpd:2011"
Att(n, x) == [s |-> "", n |-> n, v |-> x.v, c |-> x.c, w |-> x.w]
Str(x) == [v |-> x, c |-> <<>>, w |-> <<>>]
El(as) == [a |-> as, p |-> <<>>, kids |-> <<>>, t |-> ""]

RoleScheme == "urn:mpeg:dash:role:2011"
Basics(x) == <<Att("id", x[1]), Att("codecs", x[2]), Att("mimeType", x[3])>>
New(f, x) ==
  CASE f = "NewMPD" -> El(<<Att("type", x[1])>>)
    [] f = "NewAdaptationSetWithParams" ->
         El(<<Att("contentType", x[1]), Att("mimeType", x[2]), Att("segmentAlignment", x[3]), Att("startWithSAP", x[4])>>)
    [] f = "NewRepresentationWithID" -> El(Basics(x) \o <<Att("bandwidth", x[4])>>)
    [] f = "NewAudioRepresentation" -> El(Basics(x) \o <<Att("bandwidth", x[4]), Att("audioSamplingRate", x[5])>>)
    [] f = "NewVideoRepresentation" ->
         El(Basics(x) \o <<Att("frameRate", x[4]), Att("bandwidth", x[5]), Att("width", x[6]), Att("height", x[7])>>)
    [] f = "NewDescriptor" -> El(<<Att("schemeIdUri", x[1]), Att("value", x[2]), Att("id", x[3])>>)
    [] f = "NewRole" -> El(<<Att("schemeIdUri", Str(RoleScheme)), Att("value", x[1])>>)
    [] f = "NewBaseURL" -> [El(<<>>) EXCEPT !.t = x[1].v]
    [] OTHER -> El(<<>>)        \* New functions without arguments make empty elements
NewArgs(f) == CASE f \in {"NewMPD", "NewRole", "NewBaseURL"} -> 1 [] f = "NewDescriptor" -> 3
                [] f \in {"NewAdaptationSetWithParams", "NewRepresentationWithID"} -> 4
                [] f = "NewAudioRepresentation" -> 5 [] f = "NewVideoRepresentation" -> 7 [] OTHER -> 0

(* attribute n of an element becomes x                                       *)
Without(as, n) == SelectSeq(as, LAMBDA z : z.n # n)
SetAttr(as, n, x) == Append(Without(as, n), Att(n, x))
ValueOf(as, n) == LET J == {j \in DOMAIN as : as[j].n = n} IN IF J = {} THEN <<>> ELSE <<as[CHOOSE j \in J : TRUE].c>>

(* profiles: added once                                                      *)
AddTo(p, x) == IF x \in Seq2Set(p) THEN p ELSE Append(p, x)
RECURSIVE Commas(_, _)
Commas(p, j) == IF j > Len(p) THEN "" ELSE (IF j > 1 THEN "," ELSE "") \o p[j] \o Commas(p, j + 1)

(* numerals                                                                  *)
DigitNames == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE BigStr(_, _)       \* decimal digits of a Big number, least significant groups last
Group4(g) == DigitNames[(g \div 1000) + 1] \o DigitNames[((g \div 100) % 10) + 1] \o DigitNames[((g \div 10) % 10) + 1] \o DigitNames[(g % 10) + 1]
Lead(g) == IF g >= 1000 THEN Group4(g) ELSE IF g >= 100 THEN DigitNames[(g \div 100) + 1] \o DigitNames[((g \div 10) % 10) + 1] \o DigitNames[(g % 10) + 1]
           ELSE IF g >= 10 THEN DigitNames[g \div 10 + 1] \o DigitNames[(g % 10) + 1] ELSE DigitNames[g + 1]
BigStr(b, j) == IF j = 0 THEN "" ELSE (IF j = Len(b) THEN Lead(b[j]) ELSE Group4(b[j])) \o BigStr(b, j - 1)
DecStr(b) == IF b = <<>> THEN "0" ELSE BigStr(b, Len(b))
BigOf(x) == FromDigits(ToDigs(x.c))

(* bytes 0 up to the first size, then as many as the second size             *)
InitRange(i) == "0-" \o DecStr(BSub(i, BNat(1)))
IndexRange(i, s) == DecStr(i) \o "-" \o DecStr(BSub(BAdd(i, s), BNat(1)))

-----------------------------------------------------------------------------
(* one operation o = [op, f, x, y, n, a]                                     *)
Single(n) == n \in {"AssetIdentifier", "SegmentTemplate", "SegmentList", "SegmentBase", "SegmentTimeline", "Initialization"}
Put(e, n, id) == [e EXCEPT !.kids = Append(IF Single(n) THEN SelectSeq(e.kids, LAMBDA z : z.n # n) ELSE e.kids, [n |-> n, id |-> id])]
Step(h, o) ==
  CASE o.op = "new" -> Append(h, New(o.f, o.a))
    [] o.op = "add" -> [h EXCEPT ![o.x] = Put(h[o.x], o.n, o.y)]
    [] o.op = "profile" -> [h EXCEPT ![o.x].p = AddTo(h[o.x].p, o.a[1].v)]
    [] o.op = "timescale" ->
         [h EXCEPT ![o.x].a = IF BigOf(o.a[1]) = BNat(1) THEN Without(h[o.x].a, "timescale") ELSE SetAttr(h[o.x].a, "timescale", o.a[1])]
    [] o.op \in {"attr", "poke"} -> [h EXCEPT ![o.x].a = SetAttr(h[o.x].a, o.n, o.a[1])]
    [] o.op = "segbase" ->
         LET i == BigOf(o.a[1])
             s == BigOf(o.a[2])
             n == Len(h) IN
         [j \in 1..n + 2 |->
            IF j = n + 1 THEN [El(<<Att("indexRange", Str(IndexRange(i, s))), Att("indexRangeExact", o.a[3])>>) EXCEPT !.kids = <<[n |-> "Initialization", id |-> n + 2]>>]
            ELSE IF j = n + 2 THEN El(<<Att("range", Str(InitRange(i)))>>)
            ELSE IF j = o.x THEN Put(h[j], "SegmentBase", n + 1) ELSE h[j]]
    [] OTHER -> h

(* the timescale an element answers                                          *)
Timescale(h, x) == LET t == ValueOf(h[x].a, "timescale") IN IF t = <<>> THEN <<49>> ELSE t[1]

(* the document below element x                                              *)
RECURSIVE Node(_, _, _)
Node(h, x, n) ==
  [s |-> DASH, n |-> n,
   a |-> h[x].a \o (IF h[x].p = <<>> THEN <<>> ELSE <<Att("profiles", Str(Commas(h[x].p, 1)))>>),
   k |-> [j \in DOMAIN h[x].kids |-> Node(h, h[x].kids[j].id, h[x].kids[j].n)],
   t |-> h[x].t, w |-> h[x].t = "", x |-> "", i |-> FALSE]
RECURSIVE Run(_, _, _)
Run(h, os, j) == IF j > Len(os) THEN h ELSE Run(Step(h, os[j]), os, j + 1)
=============================================================================
