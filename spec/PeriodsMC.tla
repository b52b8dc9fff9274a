------------------------------ MODULE PeriodsMC ------------------------------
(* Bounded exploration of Periods: every MPD with up to MaxP periods whose    *)
(* attributes range over Vals, reached by edits; the invariants say what the  *)
(* rules must mean.  With Export set, every reachable state is written out    *)
(* with the answers the specification demands, for replay into the code.      *)
EXTENDS Periods, TLC, Json, IOUtils
CONSTANTS MaxP, Vals, MVals

VARIABLE m

Ids == 1..MaxP

Opt(S) == S \cup {None}

(* List states: ids 1..n are in the list in order; possibly one extra period  *)
(* outside it, and parent links possibly missing.                             *)
PerSet(n) == [1..n -> [start : Opt(Vals), dur : Opt(Vals), par : {"m"}]]

InitAll ==
  \E n \in 0..MaxP :
    \E f \in PerSet(n) :
      \E t \in {"static", "dynamic", "absent"}, u \in BOOLEAN, d \in Opt(MVals) :
         m = [type |-> t, mup |-> u, mdur |-> d, ast |-> "none", list |-> [i \in 1..n |-> i], per |-> f]

InitEmpty == m = Empty

Edits ==
  \/ \E p \in Ids \ DOMAIN m.per : m' = Apply(m, [op |-> "new", p |-> p])
  \/ \E p \in DOMAIN m.per :
       /\ IndexIn(m.list, p) = 0
       /\ m' \in {Apply(m, [op |-> "append", p |-> p]), Apply(m, [op |-> "rawappend", p |-> p])}
  \/ \E p \in DOMAIN m.per, x \in Opt(Vals) :
       m' \in {Apply(m, [op |-> "setstart", p |-> p, v |-> x]), Apply(m, [op |-> "setdur", p |-> p, v |-> x])}
  \/ \E p \in DOMAIN m.per : m' \in {Apply(m, [op |-> "tomother", p |-> p]), Apply(m, [op |-> "unparent", p |-> p])}
  \/ \E t \in {"static", "dynamic", "absent"} : m' = Apply(m, [op |-> "settype", s |-> t])
  \/ \E x \in {0, 1} : m' = Apply(m, [op |-> "setmup", v |-> x])
  \/ \E x \in Opt(MVals) : m' = Apply(m, [op |-> "setmdur", v |-> x])
  \/ \E a \in {"none", "ok", "bad"} : m' = Apply(m, [op |-> "setast", s |-> a])
  \/ \E i \in 1..Len(m.list) : m' = Apply(m, [op |-> "remove", v |-> i])
  \/ \E i, j \in 1..Len(m.list) : i < j /\ m' = Apply(m, [op |-> "swap", v |-> i, w |-> j])
  \/ m' = Apply(m, [op |-> "setparents"])
  \/ m' = Apply(m, [op |-> "clone"])

SpecEdit == InitEmpty /\ [][Edits]_m
SpecAll == InitAll /\ [][UNCHANGED m]_m

-----------------------------------------------------------------------------
Placed == {i \in 1..Len(m.list) : m.per[m.list[i]].par = "m"}
At(i) == m.list[i]

ExplicitWins ==
  \A p \in DOMAIN m.per :
    /\ m.per[p].start # None /\ m.per[p].par # "none" => Start(m, p) = Ok(m.per[p].start)
    /\ m.per[p].dur # None => Dur(m, p) = Ok(m.per[p].dur)

(* a period with an @duration and a successor without @start abut            *)
Abut ==
  \A i \in Placed : i + 1 \in Placed =>
    LET a == At(i)  b == At(i+1) IN
      m.per[b].start = None /\ Start(m, b).e = "" =>
        /\ Start(m, a).e = ""  /\ Dur(m, a).e = ""
        /\ Start(m, b).v = Start(m, a).v + Dur(m, a).v

(* a derived duration reaches exactly the next start / the presentation end  *)
DerivedEnd ==
  \A i \in Placed : LET a == At(i) IN
    m.per[a].dur = None /\ Dur(m, a).e = "" =>
      /\ Start(m, a).e = ""
      /\ IF i < Len(m.list) THEN m.per[At(i+1)].start = Start(m, a).v + Dur(m, a).v
         ELSE IsStatic(m) /\ m.mdur = Start(m, a).v + Dur(m, a).v

(* in a static presentation every period placed after derivable ones has a start *)
StaticFirst == Len(m.list) > 0 /\ 1 \in Placed /\ IsStatic(m) => Start(m, At(1)).e = ""

(* early available exactly when the start cannot be known, and only dynamic  *)
EarlyAvail ==
  \A i \in Placed : LET a == At(i) IN
     /\ Type(m, a).v = "early-available" => ~IsStatic(m) /\ Start(m, a).e = "unkstart"
     /\ ~IsStatic(m) /\ m.per[a].start = None /\ (i = 1 \/ m.per[At(i-1)].dur = None)
           => Type(m, a).v = "early-available"
     /\ Type(m, a).v = "early-terminated" => Dur(m, a).e = ""

Unplaced == \A p \in DOMAIN m.per : m.per[p].par = "none" => Index(m, p).e = "parent" /\ Start(m, p).e = "parent"

Inv == ExplicitWins /\ Abut /\ DerivedEnd /\ StaticFirst /\ EarlyAvail /\ Unplaced

Case == [m |-> [type |-> m.type, mup |-> m.mup, mdur |-> m.mdur, ast |-> m.ast, list |-> m.list,
                per |-> [i \in 1..MaxP |-> IF i \in DOMAIN m.per THEN m.per[i] ELSE [start |-> None, dur |-> None, par |-> "absent"]]],
         want |-> [i \in 1..MaxP |-> IF i \in DOMAIN m.per /\ Promised(m, i) THEN Answers(m, i) ELSE [none |-> 1]]]

(* one line of JSON per distinct state                                       *)
Export == PrintT("##" \o ToJson(Case))
=============================================================================
