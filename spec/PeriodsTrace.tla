---------------------------- MODULE PeriodsTrace ----------------------------
(* Recorded editing sessions: each event is an edit followed by the answers   *)
(* the real library gave for every live period.                               *)
EXTENDS Periods, RecCheck

Same(m, p, o, what) ==
  CASE what = "start" -> o.idx = Index(m, p) /\ o.start = Start(m, p) /\ o.abs = Abs(m, p)
    [] what = "dur"   -> o.dur = Dur(m, p)
    [] what = "type"  -> o.type = Type(m, p)

RECURSIVE Fold(_, _, _, _)
Fold(m, ev, i, what) ==
  IF i > Len(ev) THEN "ok"
  ELSE LET e == ev[i]
           n == Apply(m, e) IN
       IF \E j \in 1..Len(e.obs) : e.obs[j].panic # "" THEN "panic at event " \o ToString(i)
       ELSE IF \A j \in 1..Len(e.obs) : Promised(n, e.obs[j].p) => Same(n, e.obs[j].p, e.obs[j], what)
       THEN Fold(n, ev, i + 1, what)
       ELSE "period answers after event " \o ToString(i) \o " (" \o e.op \o ") do not follow from the document"

StartVerdict(r) == Fold(Empty, r.ev, 1, "start")
DurVerdict(r)   == Fold(Empty, r.ev, 1, "dur")
TypeVerdict(r)  == Fold(Empty, r.ev, 1, "type")
=============================================================================
