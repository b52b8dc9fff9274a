-------------------------------- MODULE TreeMC --------------------------------
(* Every history of up to Max editing operations on two small documents;     *)
(* every history is exported with the state it must lead to.                 *)
EXTENDS Tree, TLC, Json
CONSTANTS Max, Ops, Start

E0 == [kind |-> <<>>, kids |-> <<>>, ekids |-> <<>>, link |-> <<>>, val |-> <<>>]
N(op, x, y) == Op(op, x, y, 0, FALSE)
New(k) == [N("new", 0, 0) EXCEPT !.k = k]
(* what the histories start from, itself a history                           *)
Begin == <<
  <<New("M"), New("P"), New("A"), New("R"), New("S"), N("append", 1, 2), N("append", 2, 3), N("append", 3, 4), N("append", 4, 5), New("A"), Op("insert", 2, 6, 0, TRUE)>>,
  <<New("M"), New("P"), New("P"), New("A"), New("A"), New("R"), New("S"), N("append", 1, 2), Op("insert", 1, 3, 1, FALSE), Op("insert", 2, 4, 0, TRUE), Op("insert", 4, 6, 0, FALSE), Op("insert", 6, 7, 0, FALSE)>>,
  <<New("M"), New("P"), New("A"), New("R"), New("R"), New("S"), Op("insert", 2, 3, 0, FALSE), N("append", 3, 5), N("append", 3, 4), N("append", 4, 6), N("append", 5, 6)>>
>>
RECURSIVE RunFrom(_, _)
RunFrom(h, os) == IF os = <<>> THEN h ELSE RunFrom(Step(h, Head(os)), Tail(os))

VARIABLES h, hist, n
vars == <<h, hist, n>>
Init == \E b \in Start : h = RunFrom(E0, Begin[b]) /\ hist = Begin[b] /\ n = 0
Do(o) == /\ o.op \in Ops /\ Enabled(h, o)
         /\ h' = Step(h, o)
         /\ hist' = Append(hist, o)
         /\ n' = n + 1
Next == /\ n < Max
        /\ \/ \E x, y \in Objs(h) : Do(N("append", x, y))
           \/ \E x, y \in Objs(h), e \in BOOLEAN : Do(Op("insert", x, y, 0, e))
           \/ \E x \in Objs(h), e \in BOOLEAN, j \in 1..2 : Do(Op("drop", x, 0, j, e))
           \/ \E x \in Objs(h), y \in {0} \cup Objs(h) : h.link[x] # {y} /\ Do(N("link", x, y))
           \/ \E x \in Objs(h) : Do(N("setall", x, 0)) \/ Do(N("clone", x, 0)) \/ Do(N("reread", x, 0))
           \/ \E x \in Objs(h) : Do(Op("val", x, 0, n + 1, FALSE))
Spec == Init /\ [][Next]_vars

Last == hist[Len(hist)]
Laws == /\ TypesFit(h)
        /\ n > 0 /\ Last.op = "setall" => Linked(h, Last.x)
        /\ n > 0 /\ Last.op \in {"clone", "reread"} =>
             LET pre == Pre(h, Last.x)
                 c == Len(h.kind) - Len(pre) + 1 IN
             /\ Linked(h, c) /\ h.link[c] = {0}
             (* nothing old has changed and nothing in the clone is old      *)
             /\ ({c} \cup Sub(h, c)) \cap 1..(c - 1) = {}
             /\ \A x \in c..Len(h.kind) : \A p \in h.link[x] : p = 0 \/ p >= c
             /\ [j \in DOMAIN pre |-> h.kind[pre[j]]] = [j \in DOMAIN Pre(h, c) |-> h.kind[Pre(h, c)[j]]]
(* an operation on one tree does not show in a tree it shares nothing with   *)
Apart == [][\A x, y \in DOMAIN h.kind : h.kind[x] = "M" /\ h.kind[y] = "M" /\ x # y
                /\ ({x} \cup Sub(h, x)) \cap ({y} \cup Sub(h, y)) = {} =>
              LET o == hist'[Len(hist')] IN
              o.x \in {x} \cup Sub(h, x) => \A z \in {y} \cup Sub(h, y) : z # o.y => h'.kids[z] = h.kids[z] /\ h'.ekids[z] = h.ekids[z] /\ h'.val[z] = h.val[z] /\ h'.link[z] = h.link[z]]_vars
Export == PrintT("##" \o ToJson([ops |-> hist, kids |-> h.kids, ekids |-> h.ekids, link |-> h.link, val |-> h.val]))
=============================================================================
