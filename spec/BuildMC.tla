------------------------------- MODULE BuildMC -------------------------------
(* Every session of at most Max operations that starts with a document, a    *)
(* period, a set and a representation in place.                              *)
EXTENDS Build, Json
CONSTANTS Max, Big2

Num(s, c) == [v |-> s, c |-> c, w |-> <<>>]
One1 == Num("1", <<49>>)
N0 == Num("0", <<48>>)
N9k == Num("90000", <<57, 48, 48, 48, 48>>)
NMax == Num("4294967295", <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>)
Tru == Num("true", <<116, 114, 117, 101>>)
Fls == Num("false", <<102, 97, 108, 115, 101>>)
Op(op, f, x, y, n, a) == [op |-> op, f |-> f, x |-> x, y |-> y, n |-> n, a |-> a]
NewOp(f, a) == Op("new", f, 0, 0, "", a)
AddOp(x, n, y) == Op("add", "", x, y, n, <<>>)
Start == << NewOp("NewMPD", <<Str("static")>>), NewOp("NewPeriod", <<>>), AddOp(1, "Period", 2),
            NewOp("NewAdaptationSetWithParams", <<Str("video"), Str("video/mp4"), Tru, One1>>), AddOp(2, "AdaptationSet", 3),
            NewOp("NewVideoRepresentation", <<Str("V"), Str("avc1"), Str(""), Str("25/1"), N9k, One1, N0>>), AddOp(3, "Representation", 4),
            NewOp("NewSegmentTemplate", <<>>), AddOp(3, "SegmentTemplate", 5) >>

VARIABLES h, os
vars == <<h, os>>
Init == os = Start /\ h = Run(<<>>, Start, 1)
Do(o) == os' = Append(os, o) /\ h' = Step(h, o)
(* a new element, put somewhere at once                                      *)
Do2(o1, o2) == os' = os \o <<o1, o2>> /\ h' = Step(Step(h, o1), o2)
Next == /\ Len(os) < Len(Start) + Max
        /\ \/ \E x \in {1, 3, 4}, p \in {"urn:a", "urn:b"} : Do(Op("profile", "", x, 0, "", <<Str(p)>>))
           \/ \E n \in {One1, N0, N9k, NMax} : Do(Op("timescale", "", 5, 0, "", <<n>>))
           \/ \E i \in {One1, N9k, NMax}, s \in {One1, N9k, NMax}, e \in {Tru, Fls} : (Big2 \/ i # NMax \/ s # NMax) /\ Do(Op("segbase", "", 4, 0, "", <<i, s, e>>))
           \/ \E x \in {1, 2, 3, 4} : Do2(NewOp("NewBaseURL", <<Str("u/")>>), AddOp(x, "BaseURL", Len(h) + 1))
           \/ Do2(NewOp("NewRole", <<Str("main")>>), AddOp(3, "Role", Len(h) + 1))
           \/ Do2(NewOp("NewDescriptor", <<Str("urn:s"), Str(""), Str("7")>>), AddOp(3, "EssentialProperty", Len(h) + 1))
           \/ Do2(NewOp("NewAudioRepresentation", <<Str("A"), Str(""), Str("audio/mp4"), One1, N9k>>), AddOp(3, "Representation", Len(h) + 1))
           \/ Do2(NewOp("NewSegmentTemplate", <<>>), AddOp(4, "SegmentTemplate", Len(h) + 1))
           \/ Do2(NewOp("NewPeriod", <<>>), AddOp(1, "Period", Len(h) + 1))
Spec == Init /\ [][Next]_vars

Count(p, x) == Cardinality({j \in DOMAIN p : p[j] = x})
Laws == /\ Diff("MPD", Node(h, 1, "MPD"), Node(h, 1, "MPD"), "") = ""
        /\ AllGood("MPD", Node(h, 1, "MPD"))
        /\ \A x \in DOMAIN h : \A j \in DOMAIN h[x].p : Count(h[x].p, h[x].p[j]) = 1
        /\ \A j \in DOMAIN os : os[j].op = "profile" => os[j].a[1].v \in Seq2Set(h[os[j].x].p)
        /\ LET T == {j \in DOMAIN os : os[j].op = "timescale"} IN
           T # {} => Timescale(h, 5) = os[CHOOSE j \in T : \A i \in T : i <= j].a[1].c
(* what was there stays, in its place                                        *)
Stays == [][\A x \in DOMAIN h : /\ Len(h'[x].p) >= Len(h[x].p) /\ SubSeq(h'[x].p, 1, Len(h[x].p)) = h[x].p
                                /\ \A n \in {"Period", "AdaptationSet", "Representation", "BaseURL", "Role"} :
                                     LET was == SelectSeq(h[x].kids, LAMBDA z : z.n = n)
                                         is == SelectSeq(h'[x].kids, LAMBDA z : z.n = n) IN
                                     Len(is) >= Len(was) /\ SubSeq(is, 1, Len(was)) = was]_vars
Export == PrintT("##" \o ToJson([ops |-> os]))
=============================================================================
