----------------------------- MODULE LookupTrace -----------------------------
(* Recorded editing sessions: r.steps[j] has the operation o and what every  *)
(* representation answered after it.                                         *)
EXTENDS Lookup, RecCheck

Nil == [sets |-> <<>>, reps |-> <<>>, kids |-> <<>>, link |-> <<>>]

WrongAddr(g, r, media, a) ==
  LET es == AddrErrs(g, r) IN
  IF es # {} THEN a.err \notin es
  ELSE a.err # "" \/ a.text \notin Addr(g, r, media)
WrongRep(g, r, q) ==
  IF q.mime # Look(g, r, "mime") THEN "mime type"
  ELSE IF q.codecs # Look(g, r, "codecs") THEN "codecs"
  ELSE IF q.cps # Look(g, r, "cps") THEN "content protections"
  ELSE IF q.st # Look(g, r, "st") THEN "segment template"
  ELSE IF WrongAddr(g, r, FALSE, q.init) THEN "initialization address"
  ELSE IF WrongAddr(g, r, TRUE, q.media) THEN "media address"
  ELSE ""
Wrong(g, s) ==
  IF s.pan # "" THEN "panic: " \o s.pan
  ELSE IF s.err # "" THEN s.err
  ELSE IF Len(s.reps) # Len(g.reps) THEN "representations lost or invented"
  ELSE LET bad == {j \in DOMAIN s.reps : WrongRep(g, j, s.reps[j]) # ""} IN
       IF bad = {} THEN "" ELSE LET j == CHOOSE j \in bad : \A i \in bad : j <= i IN WrongRep(g, j, s.reps[j])

RECURSIVE Play(_, _, _)
Play(g, r, j) ==
  IF j > Len(r.steps) THEN "ok"
  ELSE LET s == r.steps[j]
           g2 == Step(g, s.o)
           x == Wrong(g2, s) IN
       IF x # "" THEN s.o.op \o ": " \o x ELSE Play(g2, r, j + 1)
LookVerdict(r) == Play(Nil, r, 1)
=============================================================================
