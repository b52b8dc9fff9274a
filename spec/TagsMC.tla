------------------------------- MODULE TagsMC -------------------------------
(* Struct types with one or two fields (property C19), each a shape with     *)
(* values, and documents for them.  The laws: what Tags.tla says a value is   *)
(* written as is what it says is read as that value, over a prior value too; *)
(* unknown content changes nothing; what is absent is left alone.            *)
(* All are exported and replayed into the code.                              *)
EXTENDS Tags, Json
CONSTANTS Max, Full
VARIABLES fs, xn, nz
vars == <<fs, xn, nz>>

F0 == [m |-> "elem", s |-> "", p |-> "", n |-> "", par |-> <<>>, om |-> FALSE, k |-> "s", ptr |-> FALSE, sl |-> FALSE,
       t |-> [xn |-> "none", s |-> "", p |-> "", n |-> "", f |-> <<>>],
       eb |-> 0, ebp |-> FALSE, d |-> 0, bare |-> FALSE]
Ty(x, s, n, f) == [xn |-> x, s |-> s, p |-> "", n |-> n, f |-> f]
One1(c) == [nil |-> FALSE, off |-> FALSE, l |-> <<[c |-> c]>>]
None1 == [nil |-> TRUE, off |-> FALSE, l |-> <<>>]
Empty1 == [nil |-> FALSE, off |-> FALSE, l |-> <<>>]
Off1(c) == [nil |-> FALSE, off |-> TRUE, l |-> <<[c |-> c]>>]
Two1(c, d) == [nil |-> FALSE, off |-> FALSE, l |-> <<[c |-> c], [c |-> d]>>]
St1(v) == [nil |-> FALSE, off |-> FALSE, l |-> <<[st |-> v]>>]
Val(f) == [nm |-> [s |-> "", n |-> ""], v |-> f]
NVal(s, n, f) == [nm |-> [s |-> s, n |-> n], v |-> f]

cA == <<97>>
cB == <<98, 32, 60>>
c7 == <<55>>
c0 == <<48>>
cMin == <<45, 49, 50, 56>>
cTrue == <<116, 114, 117, 101>>
cFalse == <<102, 97, 108, 115, 101>>
cF == <<49, 46, 53>>
cRaw == <<60, 122, 122, 62, 60, 47, 122, 122, 62>>

T1 == Ty("none", "", "", <<[F0 EXCEPT !.m = "attr", !.n = "a"], [F0 EXCEPT !.m = "chardata", !.k = "i32"]>>)
V1(a, b) == Val(<<One1(a), One1(b)>>)
T2 == Ty("tag", "urn:a", "n9", <<[F0 EXCEPT !.n = "x", !.s = "urn:a"], [F0 EXCEPT !.n = "y", !.par = <<"p">>, !.ptr = TRUE]>>)
V2(a, y) == Val(<<One1(a), y>>)
T3 == Ty("var", "", "", <<[F0 EXCEPT !.m = "chardata"], [F0 EXCEPT !.m = "anyattr", !.k = "attr", !.sl = TRUE]>>)
V3(s, n, c, as) == NVal(s, n, <<One1(c), [nil |-> FALSE, off |-> FALSE, l |-> as]>>)
T4 == Ty("var", "", "", <<[F0 EXCEPT !.m = "chardata", !.k = "i32"]>>)
Z(s, n, c) == [s |-> s, n |-> n, c |-> c]

(* <<field, values>>; fields without a name are named after their place      *)
Menu == <<
  <<F0, <<One1(cA), One1(<<>>)>>>>,
  <<[F0 EXCEPT !.s = "urn:a"], <<One1(cB)>>>>,
  <<[F0 EXCEPT !.n = "e1", !.s = "urn:b", !.p = "y"], <<One1(cA)>>>>,
  <<[F0 EXCEPT !.par = <<"p">>], <<One1(cA), One1(<<>>)>>>>,
  <<[F0 EXCEPT !.par = <<"p", "q">>, !.s = "urn:a", !.ptr = TRUE], <<One1(cA), None1>>>>,
  <<[F0 EXCEPT !.par = <<"q">>, !.sl = TRUE, !.k = "bytes"], <<Two1(cA, cB), Empty1>>>>,
  <<[F0 EXCEPT !.n = "p"], <<One1(cA)>>>>,
  <<[F0 EXCEPT !.k = "i8"], <<One1(c7), One1(cMin)>>>>,
  <<[F0 EXCEPT !.k = "b", !.om = TRUE], <<One1(cTrue), One1(cFalse)>>>>,
  <<[F0 EXCEPT !.k = "f64", !.om = TRUE, !.ptr = TRUE], <<One1(c0), None1, One1(cF)>>>>,
  <<[F0 EXCEPT !.k = "u16", !.sl = TRUE, !.par = <<"p">>], <<Two1(c7, c0), Empty1>>>>,
  <<[F0 EXCEPT !.k = "tm"], <<One1(cA), One1(<<>>)>>>>,
  <<[F0 EXCEPT !.k = "struct", !.t = T1], <<St1(V1(cA, c7)), St1(V1(<<>>, c0))>>>>,
  <<[F0 EXCEPT !.k = "struct", !.t = T1, !.ptr = TRUE, !.par = <<"p">>], <<St1(V1(cA, c7)), None1>>>>,
  <<[F0 EXCEPT !.k = "struct", !.t = T2, !.n = "n9", !.bare = TRUE, !.s = "urn:a"], <<St1(V2(cA, None1)), St1(V2(cB, One1(cA)))>>>>,
  <<[F0 EXCEPT !.k = "struct", !.t = T1, !.sl = TRUE, !.s = "urn:a", !.p = "x"], <<[nil |-> FALSE, off |-> FALSE, l |-> <<[st |-> V1(cA, c7)], [st |-> V1(cB, c0)]>>], Empty1>>>>,
  <<[F0 EXCEPT !.m = "attr"], <<One1(cB), One1(<<>>)>>>>,
  <<[F0 EXCEPT !.m = "attr", !.s = "urn:a"], <<One1(cA)>>>>,
  <<[F0 EXCEPT !.m = "attr", !.n = "a1", !.s = "urn:b", !.p = "x"], <<One1(cA)>>>>,
  <<[F0 EXCEPT !.m = "attr", !.k = "i16", !.om = TRUE], <<One1(c7), One1(c0)>>>>,
  <<[F0 EXCEPT !.m = "attr", !.k = "tm", !.ptr = TRUE], <<One1(cA), None1>>>>,
  <<[F0 EXCEPT !.m = "attr", !.k = "b", !.ptr = TRUE, !.om = TRUE], <<One1(cFalse), None1>>>>,
  <<[F0 EXCEPT !.m = "anyattr", !.k = "attr", !.sl = TRUE], <<[nil |-> FALSE, off |-> FALSE, l |-> <<Z("", "z", cA), Z("urn:b", "z", cB)>>], Empty1>>>>,
  <<[F0 EXCEPT !.m = "chardata"], <<One1(cB), One1(<<>>)>>>>,
  <<[F0 EXCEPT !.m = "chardata", !.k = "tm", !.ptr = TRUE], <<One1(cA)>>>>,
  <<[F0 EXCEPT !.m = "cdata", !.k = "i32"], <<One1(c7), One1(c0)>>>>,
  <<[F0 EXCEPT !.m = "comment"], <<One1(cA), One1(<<>>)>>>>,
  <<[F0 EXCEPT !.m = "inner"], <<One1(cRaw)>>>>,
  <<[F0 EXCEPT !.m = "any", !.k = "struct", !.sl = TRUE, !.t = T3],
    <<[nil |-> FALSE, off |-> FALSE, l |-> <<[st |-> V3("urn:b", "v", cA, <<>>)], [st |-> V3("", "w", <<>>, <<Z("urn:a", "z", cA)>>)]>>], Empty1>>>>,
  <<[F0 EXCEPT !.m = "any", !.k = "struct", !.ptr = TRUE, !.t = T3], <<St1(V3("", "v", cA, <<>>))>>>>,
  <<[F0 EXCEPT !.m = "any", !.k = "struct", !.sl = TRUE, !.t = T4], <<St1(NVal("", "v", <<One1(c7)>>))>>>>,
  <<[F0 EXCEPT !.d = 1, !.eb = 1, !.n = "e1"], <<One1(cA)>>>>,
  <<[F0 EXCEPT !.m = "attr", !.d = 1, !.eb = 1, !.ebp = TRUE, !.n = "a1"], <<One1(cA), Off1(<<>>)>>>>,
  <<[F0 EXCEPT !.m = "dash"], <<One1(<<>>)>>>>,
  <<[F0 EXCEPT !.k = "mx", !.s = "urn:b"], <<One1(cA)>>>>,
  <<[F0 EXCEPT !.m = "attr", !.k = "mx", !.ptr = TRUE], <<One1(cB), None1>>>>,
  <<[F0 EXCEPT !.m = "attr", !.k = "u16", !.sl = TRUE], <<One1(c7), Empty1>>>>
>>

Nm(F, i) == IF F.n # "" \/ F.m \in {"chardata", "cdata", "comment", "inner", "any", "anyattr"} THEN F
            ELSE [F EXCEPT !.n = (IF F.m = "attr" THEN "a" ELSE "e") \o ToString(i)]
Type == [xn |-> xn, s |-> IF xn = "tag" THEN "urn:r" ELSE "", p |-> "", n |-> IF xn = "tag" THEN "root" ELSE "",
         f |-> [i \in DOMAIN fs |-> Nm(Menu[fs[i][1]][1], i)]]
RootName == [s |-> "", n |-> ""]
Nam == IF xn = "var" THEN [s |-> "urn:v", n |-> "root"] ELSE [s |-> "", n |-> ""]
Value == [nm |-> Nam, v |-> [i \in DOMAIN fs |-> Menu[fs[i][1]][2][fs[i][2]]]]
(* another value of the type, to read into; its text fields are zero         *)
Prior == [nm |-> [s |-> "", n |-> ""],
          v |-> [i \in DOMAIN fs |->
                   LET m == Menu[fs[i][1]] IN
                   IF m[1].m \in {"chardata", "cdata", "comment", "inner"} THEN ZeroField(m[1])
                   ELSE m[2][(fs[i][2] % Len(m[2])) + 1]]]
Begin == [use |-> xn = "none", s |-> "urn:s", n |-> "root", a |-> <<>>]

(* ---- the element that is described                                        *)
E4(s, n, a, c) == [s |-> s, n |-> n, a |-> a, i |-> c, raw |-> <<>>]
Txt(c) == [t |-> "t", c |-> c]
Cmt(c) == [t |-> "c", c |-> c]
Elm(e) == [t |-> "e", c |-> <<>>, e |-> e]
RECURSIVE Ins(_, _, _, _)
Ins(c, path, node, m) ==
  IF path = <<>> THEN Append(c, node)
  ELSE IF m > 0 THEN SubSeq(c, 1, Len(c) - 1) \o <<[c[Len(c)] EXCEPT !.e = [c[Len(c)].e EXCEPT !.i = Ins(c[Len(c)].e.i, Tail(path), node, m - 1)]]>>
  ELSE Append(c, Elm(E4("", path[1], <<>>, Ins(<<>>, Tail(path), node, 0))))
PathOf(it) == IF it.t = "e" THEN it.F.par ELSE <<>>
RECURSIVE Desc(_, _, _, _), Build(_, _, _, _)
Node(it) ==
  CASE it.t = "t" -> Txt(it.c)
    [] it.t = "c" -> Cmt(it.c)
    [] it.t = "x" -> Elm(E4("", "zz", <<>>, <<>>))
    [] it.t = "e" ->
         IF it.F.k = "struct"
         THEN LET T == it.F.t
                  x == it.y.st IN
              IF T.xn = "tag" THEN Elm(Desc(T.s, T.n, T, x))
              ELSE IF T.xn = "var" /\ x.nm.n # "" THEN Elm(Desc(x.nm.s, x.nm.n, T, x))
              ELSE Elm(Desc(it.F.s, it.F.n, T, x))
         ELSE LET c == Written(it.F.k, it.y.c) IN
              Elm(E4(it.F.s, it.F.n, <<>>, IF c = <<>> THEN <<>> ELSE <<Txt(c)>>))
Build(items, j, prev, c) ==
  IF j > Len(items) THEN c
  ELSE LET p == PathOf(items[j]) IN Build(items, j + 1, p, Ins(c, p, Node(items[j]), Common(prev, p)))
Desc(s, n, T, x) ==
  LET as == Attrs(T, x)
      e == E4(s, n, [j \in DOMAIN as |-> [s |-> as[j].s, n |-> as[j].n, c |-> as[j].c]], Build(Items(T, x), 1, <<>>, <<>>)) IN
  IF \E i \in DOMAIN T.f : T.f[i].m = "inner" THEN [e EXCEPT !.raw = cRaw] ELSE e
El == LET N0 == IF xn = "none" THEN [s |-> "urn:s", n |-> "root"] ELSE IF xn = "tag" THEN [s |-> "urn:r", n |-> "root"] ELSE Nam IN
      Desc(N0.s, N0.n, Type, Value)

(* ---- the document that is read: with noise, or without something          *)
Junk == Elm(E4("urn:zz", "junk", <<Z("", "e1", cA)>>, <<Txt(cA), Elm(E4("", "e1", <<>>, <<Txt(c7)>>))>>))
RECURSIVE Twins(_)
Twins(c) == Concat([j \in DOMAIN c |-> IF c[j].t # "e" THEN <<c[j]>>
                                       ELSE <<[c[j] EXCEPT !.e = [c[j].e EXCEPT !.i = Twins(c[j].e.i)]], Elm(E4("urn:zz", c[j].e.n, <<>>, <<Elm(E4("", "junk", <<>>, <<>>))>>))>>])
Doc == LET e == El IN
  CASE nz = 0 -> e
    [] nz = 1 -> [e EXCEPT !.i = <<Junk>> \o e.i \o <<Junk>>]
    [] nz = 2 -> [e EXCEPT !.a = <<Z("urn:zz", "junk", cA), Z("", "junk", c7)>> \o e.a]
    [] nz = 3 -> [e EXCEPT !.i = Twins(e.i)]
    [] nz = 4 -> [e EXCEPT !.i = IF e.i = <<>> THEN e.i ELSE Tail(e.i)]
    [] nz = 5 -> [e EXCEPT !.a = IF e.a = <<>> THEN e.a ELSE Tail(e.a)]
    [] nz = 6 -> [e EXCEPT !.i = e.i \o e.i]
    [] nz = 7 -> [e EXCEPT !.s = "urn:zz"]

Init == fs = <<>> /\ xn \in {"none", "tag", "var"} /\ nz \in 0..7
Single == {"chardata", "cdata", "comment", "inner", "any", "anyattr"}
Group(m) == IF m = "cdata" THEN "chardata" ELSE m
Fits(F) ==
  /\ \A i \in DOMAIN fs :
       LET G == Menu[fs[i][1]][1] IN
       /\ F.m \in Single => Group(G.m) # Group(F.m)
       /\ F.m = "inner" => G.m \in {"attr", "anyattr", "dash"}
       /\ G.m = "inner" => F.m \in {"attr", "anyattr", "dash"}
       /\ F.eb # 0 => G.eb # F.eb
       (* not the same name in any namespace and in a certain one            *)
       /\ LET H == Nm(F, Len(fs) + 1)
              K0 == Nm(G, i) IN
          ~(H.m = K0.m /\ H.m \in {"attr", "elem"} /\ H.n = K0.n /\ H.par = K0.par /\ H.s # K0.s)
Next == /\ Len(fs) < Max
        /\ \E i \in DOMAIN Menu : \E j \in DOMAIN Menu[i][2] :
             /\ Fits(Menu[i][1])
             /\ IF Full \/ fs = <<>> THEN TRUE
                ELSE \/ (i * 5 + j + fs[1][1] * 3 + fs[1][2] + (IF xn = "tag" THEN 8 ELSE IF xn = "var" THEN 16 ELSE 0)) % 24 = nz
                     \/ (nz = 0 /\ xn = "none" /\ (i + fs[1][1]) % 2 = 0)
             /\ fs' = Append(fs, <<i, j>>)
        /\ UNCHANGED <<xn, nz>>
Spec == Init /\ [][Next]_vars

ReadV(x, e) == ReadStruct(Type, x, e)
Plain == ~\E i \in DOMAIN Type.f : Type.f[i].m \in {"any", "anyattr", "inner"}
Laws ==
  fs # <<>> /\ ~Conflicting(Type) =>
    LET T == Type
        e == El
        b == ReadV(ZeroOf(T), e) IN
    /\ DocIs(T, Value, Begin, e, FALSE)
    /\ b.e = "ok" /\ SameVal(T, IF xn = "none" THEN Value ELSE [Value EXCEPT !.nm = b.v.nm], b.v)
    \* a document without the first element, or the first attribute, is not that
    /\ e.a # <<>> => ~DocIs(T, Value, Begin, [e EXCEPT !.a = Tail(e.a)], FALSE)
    /\ e.i # <<>> /\ e.i[1].t # "x" => ~DocIs(T, Value, Begin, [e EXCEPT !.i = Tail(e.i)], FALSE) \/ e.raw # <<>>
    /\ nz \in {1, 2} /\ Plain => ReadV(Prior, Doc) = ReadV(Prior, e)
    /\ nz = 7 /\ xn = "tag" => ReadV(Prior, Doc).e = "error"
    /\ LET r == ReadV(Prior, Doc) IN
       r.e = "ok" => \A i \in DOMAIN T.f : Visible(T, i) /\ ~Mentioned(T, i, Doc) => SameField(T.f[i], Prior.v[i], r.v.v[i])
(* a letter of texts counts for nothing but itself: written twice wherever it *)
(* occurs in the document and the value read into, it is there twice in the  *)
(* value that is read                                                        *)
RECURSIVE Wide(_), WideV(_), WideE(_)
Wide(c) == Concat([j \in DOMAIN c |-> IF c[j] = 98 THEN <<98, 98>> ELSE <<c[j]>>])
WideI(it) == IF "st" \in DOMAIN it THEN [it EXCEPT !.st = WideV(it.st)] ELSE [it EXCEPT !.c = Wide(it.c)]
WideV(x) == [x EXCEPT !.v = [i \in DOMAIN x.v |-> [x.v[i] EXCEPT !.l = [j \in DOMAIN x.v[i].l |-> WideI(x.v[i].l[j])]]]]
WideE(e) == [e EXCEPT !.a = [j \in DOMAIN e.a |-> [e.a[j] EXCEPT !.c = Wide(e.a[j].c)]],
                      !.raw = Wide(e.raw),
                      !.i = [j \in DOMAIN e.i |-> IF e.i[j].t = "e" THEN [e.i[j] EXCEPT !.e = WideE(e.i[j].e)] ELSE [e.i[j] EXCEPT !.c = Wide(e.i[j].c)]]]
Uniform == fs # <<>> /\ ~Conflicting(Type) =>
             LET r == ReadV(Prior, Doc) IN
             ReadV(WideV(Prior), WideE(Doc)) = [e |-> r.e, v |-> WideV(r.v)]
Export == fs = <<>> \/ PrintT("##" \o ToJson([t |-> Type, x |-> Value, start |-> Begin, prior |-> Prior, el |-> Doc]))
=============================================================================
