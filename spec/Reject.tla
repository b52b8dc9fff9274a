------------------------------- MODULE Reject -------------------------------
(* Which texts are documents the library must read, and which it must       *)
(* refuse: well-formed markup (Xml.tla) with a single MPD element outside of *)
(* which there are only declarations, comments, instructions and white space,*)
(* and all values in their types (Doc.tla).                                  *)
EXTENDS Doc
X == INSTANCE Xml

Sub1(s, k) == SubSeq(s, 1, k)
kMPD == <<77, 80, 68>>
kDOCTYPE == <<68, 79, 67, 84, 89, 80, 69>>
BOM == 65279

(* the depth before each token                                               *)
RECURSIVE Depths(_, _, _)
Depths(toks, j, d) ==
  IF j > Len(toks) THEN <<>>
  ELSE <<d>> \o Depths(toks, j + 1, IF toks[j].k = "start" THEN d + 1 ELSE IF toks[j].k = "end" THEN d - 1 ELSE d)

Class(s) ==
  LET Z == X!Parse(s, X!Strict)
      T == Z.toks
      D == Depths(T, 1, 0)
      top(k) == {j \in DOMAIN T : T[j].k = k /\ D[j] = 0}
      roots == top("start")
      root == Min(roots)
      ends == {j \in DOMAIN T : T[j].k = "end" /\ D[j] = 1}
      text == {j \in top("text") : ~(\A x \in DOMAIN T[j].t : IsWS(T[j].t[x]) \/ (j = 1 /\ x = 1 /\ T[j].t[x] = BOM))}
      refs == {j \in top("text") : j \notin text /\ \E x \in 1..T[j].e : s[x] = 38 /\ (IF j = 1 THEN TRUE ELSE x > T[j - 1].e)}
      cdata == {j \in top("text") : \E x \in 1..T[j].e : s[x] = 60 /\ (IF j = 1 THEN TRUE ELSE x > T[j - 1].e)}
      yes == [want |-> "accept", why |-> "", end |-> IF ends = {} THEN 0 ELSE T[Min(ends)].e]
      no(w) == [want |-> "refuse", why |-> w, end |-> 0]
      free == [want |-> "free", why |-> "", end |-> 0] IN
  IF Z.any THEN free
  ELSE IF roots # {} /\ T[root].n # kMPD THEN no("another root element")
  ELSE IF Z.err # "" THEN no(Z.err)
  ELSE IF roots = {} THEN no("no root element")
  ELSE IF Cardinality(roots) > 1 THEN no("more than one root element")
  ELSE IF text # {} THEN no("text outside the root element")
  ELSE IF refs # {} \/ cdata # {} THEN free      \* white space in a form that is not allowed there
  ELSE IF \E j \in top("dir") : j > root THEN no("declaration after the root element")
  ELSE IF \E j \in DOMAIN T : T[j].k = "dir" /\ (D[j] > 0 \/ Sub1(T[j].t, 7) # kDOCTYPE \/ Cardinality(top("dir")) > 1) THEN free
  ELSE yes
=============================================================================
