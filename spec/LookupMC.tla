------------------------------ MODULE LookupMC ------------------------------
(* Mode 1: every template made of up to MaxLen fragments, with every id and  *)
(* bandwidth.  Mode 2: every way in which values are set or not on a         *)
(* representation and on two sets, with every link.                          *)
EXTENDS Lookup, TLC, Json
CONSTANTS Mode, MaxLen, NF

Dol == <<36>>
Num == <<36, 78, 117, 109, 98, 101, 114, 36>>
NumF == <<36, 78, 117, 109, 98, 101, 114, 37, 48, 53, 100, 36>>
BandF == SubSeq(BandW, 1, 10) \o <<37, 48, 53, 100, 36>>
Frags == << RepID, BandW, Dol, Tail(RepID), SubSeq(RepID, 1, 17), Tail(BandW), SubSeq(BandW, 1, 10), <<97, 47>>,
            Num, BandF, <<36, 114, 101, 112, 114, 101, 115, 101, 110, 116, 97, 116, 105, 111, 110, 105, 100, 36>>, <<37>>, <<195, 169>>, NumF, <<92>>, <<36, 49>> >>
Ids == << <<118, 49>>, <<>>, BandW, RepID, Dol, SubSeq(BandW, 2, 10), <<97, 36, 98>>, <<36, 49>>, <<255, 37, 100>>, Tail(RepID) >>
Bws == << <<48>>, <<53>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>> >>

VARIABLES s, h
vars == <<s, h>>
Nil == [sets |-> <<>>, reps |-> <<>>, kids |-> <<>>, link |-> <<>>]
InitT == s = <<>> /\ h = Nil
NextT == Len(s) < MaxLen /\ \E j \in 1..NF : s' = Append(s, j) /\ UNCHANGED h
SpecT == InitT /\ [][NextT]_vars

RECURSIVE Cat(_, _)
Cat(x, j) == IF j > Len(x) THEN <<>> ELSE Frags[x[j]] \o Cat(x, j + 1)
t == Cat(s, 1)
Occ == {j \in 1..Len(t) : Ident(t, j) # <<>>}
Laws1 ==
  /\ \A i \in DOMAIN Ids : LET E == Expand(t, Ids[i], Bws[2]) IN
       /\ E # {}
       /\ Occ = {} => E = {t}
       \* nothing but whole identifiers is touched
       /\ \A x \in E : \E n \in SUBSET Occ :
            /\ \A j1, j2 \in n : j1 < j2 => j1 + Len(Ident(t, j1)) <= j2
            /\ \A j \in Occ \ n : \E i2 \in n : j < i2 + Len(Ident(t, i2)) /\ i2 < j + Len(Ident(t, j))
            /\ Len(x) = Len(t) - Len(Cat([j \in 1..Cardinality({q \in n : Ident(t, q) = RepID}) |-> 1], 1))
                               - Len(Cat([j \in 1..Cardinality({q \in n : Ident(t, q) = BandW}) |-> 2], 1))
                               + Cardinality({q \in n : Ident(t, q) = RepID}) * Len(Ids[i])
                               + Cardinality({q \in n : Ident(t, q) = BandW}) * Len(Bws[2])
  \* identifiers that share no dollar sign leave nothing open, and pieces are independent
  /\ (\A j1, j2 \in Occ : j1 < j2 => j1 + Len(Ident(t, j1)) <= j2) => Cardinality(Expand(t, Ids[1], Bws[1])) = 1
  /\ \A a \in Expand(t, Ids[1], Bws[1]) : (a \o <<47>> \o Ids[1]) \in Expand(t \o <<47>> \o RepID, Ids[1], Bws[1])
SomeIds == IF Len(s) <= 2 THEN DOMAIN Ids ELSE {1, 3, 4, 7}
SomeBws == IF Len(s) <= 2 THEN DOMAIN Bws ELSE {3}
Export1 == PrintT("##" \o ToJson([t |-> t, exp |-> {[id |-> Ids[i], bw |-> Bws[b], out |-> Expand(t, Ids[i], Bws[b])] : i \in SomeIds, b \in SomeBws}]))

(* mode 2 *)
El(n, m, c, p, st) == [mime |-> IF m THEN "m" \o n ELSE "", codecs |-> IF c THEN "c" \o n ELSE "",
                       cps |-> IF p = 0 THEN <<>> ELSE IF p = 1 THEN <<"p" \o n>> ELSE <<"p" \o n, "q" \o n>>,
                       st |-> IF st = 0 THEN <<>> ELSE IF st = 1 THEN <<[i |-> <<105>> \o RepID, m |-> <<109>> \o BandW, n |-> n]>>
                              ELSE <<[i |-> <<>>, m |-> <<>>, n |-> n]>>,
                       id |-> <<118>>, bw |-> <<55>>]
Els(n) == {El(n, m, c, p, st) : m \in BOOLEAN, c \in BOOLEAN, p \in 0..MaxLen - 1, st \in 0..2}
Init2 == s = <<>> /\ h \in {[Nil EXCEPT !.reps = <<e>>, !.link = <<0>>] : e \in Els("r")}
Next2 == \/ /\ Len(h.sets) < 2 /\ UNCHANGED s
            /\ \E e \in Els(IF Len(h.sets) = 0 THEN "a" ELSE "b") :
                  (Len(h.sets) = 0 \/ (e.mime # "" /\ e.cps # <<>> /\ e.codecs # "")) /\ h' = NewSet(h, e)
         \/ /\ Len(h.sets) = 2 /\ h.link[1] = 0 /\ UNCHANGED s
            /\ \E a \in 1..2 : h' = Link(h, 1, a)
Spec2 == Init2 /\ [][Next2]_vars
Fields == {"mime", "codecs", "cps", "st"}
Laws2 == Len(h.reps) = 1 =>
  /\ \A f \in Fields : /\ Own(h, 1, f) # Unset(f) => Look(h, 1, f) = Own(h, 1, f)
                       /\ Look(h, 1, f) # Unset(f) => Look(h, 1, f) = Own(h, 1, f) \/ h.link[1] # 0
                       /\ \A a \in 1..Len(h.sets) : a # h.link[1] => Look(SetSet(h, a, El("z", TRUE, TRUE, 1, 1)), 1, f) = Look(h, 1, f)
                       /\ h.link[1] # 0 => Look(SetSet(h, h.link[1], El("z", TRUE, TRUE, 1, 1)), 1, f) # Unset(f)
  /\ AddrErrs(h, 1) = {} => Addr(h, 1, TRUE) # {} /\ Addr(h, 1, FALSE) # {}
  \* copies answer the same
  /\ \A a \in 1..Len(h.sets) : h.link[1] = 0 => LET g == CopySet(Put(h, 1, a), a) IN
        \A f \in Fields : Look(g, 2, f) = Look(Put(h, 1, a), 1, f)
Answers(g, r) == [mime |-> Look(g, r, "mime"), codecs |-> Look(g, r, "codecs"), cps |-> Look(g, r, "cps"), st |-> Look(g, r, "st"),
                  errs |-> AddrErrs(g, r),
                  init |-> IF AddrErrs(g, r) = {} THEN Addr(g, r, FALSE) ELSE {},
                  media |-> IF AddrErrs(g, r) = {} THEN Addr(g, r, TRUE) ELSE {}]
Export2 == PrintT("##" \o ToJson([sets |-> h.sets, rep |-> h.reps[1], link |-> h.link[1], want |-> Answers(h, 1)]))
=============================================================================
