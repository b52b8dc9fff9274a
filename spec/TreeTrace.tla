------------------------------ MODULE TreeTrace ------------------------------
(* Editing sessions recorded from the library.  A record r is a session:     *)
(* r.steps[j] is the operation o and what was seen after it: for every object*)
(* its children (numbers of objects, in order), its parent and its value.    *)
EXTENDS Tree, RecCheck

E0 == [kind |-> <<>>, kids |-> <<>>, ekids |-> <<>>, link |-> <<>>, val |-> <<>>]

(* C08 looks at the links, C09 at what the clones hold as well               *)
Wrong(h, s, vals) ==
  IF s.pan # "" THEN "panic: " \o s.pan
  ELSE IF s.err # "" THEN s.err
  ELSE IF Len(s.kids) # Len(h.kind) THEN "elements lost or invented"
  ELSE IF s.kids # h.kids \/ s.ekids # h.ekids THEN "children differ"
  ELSE IF \E x \in Objs(h) : s.link[x] \notin h.link[x] THEN "parent link"
  ELSE IF vals /\ s.val # h.val THEN "value"
  ELSE ""

(* narrow the links that the specification leaves open to what was seen      *)
Narrow(h, s) == [h EXCEPT !.link = [x \in Objs(h) |-> {s.link[x]}]]

RECURSIVE Play(_, _, _, _)
Play(h, r, j, vals) ==
  IF j > Len(r.steps) THEN "ok"
  ELSE LET s == r.steps[j]
           h2 == Step(h, s.o)
           w == Wrong(h2, s, vals) IN
       IF ~Enabled(h, s.o) THEN "not a session"
       ELSE IF w # "" THEN s.o.op \o ": " \o w
       ELSE Play(Narrow(h2, s), r, j + 1, vals)
LinkVerdict(r) == Play(E0, r, 1, FALSE)
CopyVerdict(r) == Play(E0, r, 1, TRUE)
=============================================================================
