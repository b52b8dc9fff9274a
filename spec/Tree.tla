-------------------------------- MODULE Tree --------------------------------
(* The tree of an MPD as a program edits it: MPD > Period > AdaptationSet,   *)
(* EmptyAdaptationSet > Representation > SubRepresentation.  A state h is    *)
(*   kind : Seq of kinds, one for every object there has been                *)
(*   kids : per object its children in order (a Period has AdaptationSets in *)
(*          kids and EmptyAdaptationSets in ekids)                           *)
(*   link : per object the SET of parents its link may have (0: none); one   *)
(*          element unless the object is below several of the elements that  *)
(*          were linked together                                             *)
(*   val  : per object a value that is kept behind a pointer                 *)
EXTENDS Integers, Sequences, FiniteSets

Below(kind) == CASE kind = "M" -> "P" [] kind = "P" -> "A" [] kind = "A" -> "R" [] kind = "R" -> "S" [] OTHER -> "-"
Objs(h) == 1..Len(h.kind)
All(h, x) == h.kids[x] \o h.ekids[x]
Rng(s) == {s[j] : j \in DOMAIN s}

(* everything below x, x excluded; the types make cycles impossible          *)
RECURSIVE Sub(_, _)
Sub(h, x) == Rng(All(h, x)) \cup UNION {Sub(h, y) : y \in Rng(All(h, x))}
(* every object below x is there once                                        *)
RECURSIVE Pre(_, _)
Pre(h, x) == LET a == All(h, x)
                 F[j \in 0..Len(a)] == IF j = 0 THEN <<x>> ELSE F[j - 1] \o Pre(h, a[j]) IN F[Len(a)]
IsTree(h, x) == Cardinality({x} \cup Sub(h, x)) = Len(Pre(h, x))

NewObj(h, kind) ==
  [kind |-> Append(h.kind, kind), kids |-> Append(h.kids, <<>>), ekids |-> Append(h.ekids, <<>>),
   link |-> Append(h.link, {0}), val |-> Append(h.val, 0)]

(* Append operations: last, and linked to the element they are called on     *)
AppendKid(h, p, c) == [h EXCEPT !.kids[p] = Append(h.kids[p], c), !.link[c] = {p}]
(* the lists are also plain fields                                           *)
PutAt(s, j, c) == SubSeq(s, 1, j) \o <<c>> \o SubSeq(s, j + 1, Len(s))
DropAt(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Insert(h, p, e, j, c) == IF e THEN [h EXCEPT !.ekids[p] = PutAt(h.ekids[p], j, c)] ELSE [h EXCEPT !.kids[p] = PutAt(h.kids[p], j, c)]
Drop(h, p, e, j) == IF e THEN [h EXCEPT !.ekids[p] = DropAt(h.ekids[p], j)] ELSE [h EXCEPT !.kids[p] = DropAt(h.kids[p], j)]
SetLink(h, c, p) == [h EXCEPT !.link[c] = {p}]
SetVal(h, x, n) == [h EXCEPT !.val[x] = n]

(* links everything below x, and nothing else                                *)
SetAll(h, x) ==
  LET In == {x} \cup Sub(h, x) IN
  [h EXCEPT !.link = [c \in Objs(h) |-> IF c \in Sub(h, x) THEN {p \in In : c \in Rng(All(h, p))} ELSE h.link[c]]]

(* a copy of x and what is below it, as new objects in preorder, linked among*)
(* themselves only                                                           *)
CopyOf(h, x) ==
  LET pre == Pre(h, x)
      n == Len(h.kind)
      new(c) == n + CHOOSE j \in DOMAIN pre : pre[j] = c
      m(s) == [j \in DOMAIN s |-> new(s[j])]
      N == DOMAIN pre IN
  [kind |-> h.kind \o [j \in N |-> h.kind[pre[j]]],
   kids |-> h.kids \o [j \in N |-> m(h.kids[pre[j]])],
   ekids |-> h.ekids \o [j \in N |-> m(h.ekids[pre[j]])],
   link |-> h.link \o [j \in N |-> IF j = 1 THEN {0} ELSE {n + i : i \in {i \in N : pre[j] \in Rng(All(h, pre[i]))}}],
   val |-> h.val \o [j \in N |-> h.val[pre[j]]]]

Clone(h, x) == CopyOf(h, x)
(* writing a document and reading it gives a new tree that says the same     *)
Reread(h, x) == CopyOf(h, x)

(* one operation o = [op, x, y, j, e]                                        *)
Step(h, o) ==
  CASE o.op = "new"      -> NewObj(h, o.k)
    [] o.op = "append"   -> AppendKid(h, o.x, o.y)
    [] o.op = "insert"   -> Insert(h, o.x, o.e, o.j, o.y)
    [] o.op = "drop"     -> Drop(h, o.x, o.e, o.j)
    [] o.op = "link"     -> SetLink(h, o.x, o.y)
    [] o.op = "val"      -> SetVal(h, o.x, o.j)
    [] o.op = "setall"   -> SetAll(h, o.x)
    [] o.op = "clone"    -> Clone(h, o.x)
    [] o.op = "reread"   -> Reread(h, o.x)
    [] OTHER -> h

Op(op, x, y, j, e) == [op |-> op, x |-> x, y |-> y, j |-> j, e |-> e, k |-> ""]

Enabled(h, o) ==
  /\ o.op = "new" \/ o.x \in Objs(h)
  /\ CASE o.op = "append" -> o.y \in Objs(h) /\ h.kind[o.y] = Below(h.kind[o.x])
       [] o.op = "insert" -> /\ o.y \in Objs(h) /\ h.kind[o.y] = Below(h.kind[o.x])
                             /\ o.e => h.kind[o.x] = "P"
                             /\ o.j \in 0..Len(IF o.e THEN h.ekids[o.x] ELSE h.kids[o.x])
       [] o.op = "drop"   -> o.j \in 1..Len(IF o.e THEN h.ekids[o.x] ELSE h.kids[o.x])
       [] o.op = "link"   -> o.y = 0 \/ (o.y \in Objs(h) /\ h.kind[o.x] = Below(h.kind[o.y]))
       [] o.op = "setall" -> h.kind[o.x] \in {"M", "P", "A", "R"}
       [] o.op = "clone"  -> h.kind[o.x] \in {"M", "P", "A"} /\ IsTree(h, o.x)
       [] o.op = "reread" -> h.kind[o.x] = "M" /\ IsTree(h, o.x)
       [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* laws                                                                      *)
TypesFit(h) == \A p \in Objs(h) : \A c \in Rng(All(h, p)) : h.kind[c] = Below(h.kind[p])
(* everything below x is linked to what contains it                          *)
Linked(h, x) == \A p \in {x} \cup Sub(h, x) : \A c \in Rng(All(h, p)) : IsTree(h, x) => h.link[c] = {p}
=============================================================================
