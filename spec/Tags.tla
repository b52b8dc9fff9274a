-------------------------------- MODULE Tags --------------------------------
(* The mapping between Go values and XML that struct tags describe (property *)
(* C19), as documented for Marshal and Unmarshal of package xml.             *)
(*                                                                           *)
(* A struct type is a record                                                 *)
(*   [xn, s, n, f]  xn "none" (no XMLName field), "tag" (it has a tag with   *)
(*                  namespace s and name n) or "var" (it has no tag)         *)
(* with fields f, those of embedded structs in their place:                  *)
(*   m    "elem" "attr" "chardata" "cdata" "comment" "inner" "any" "anyattr" *)
(*        or "dash" (a field that is left alone)                             *)
(*   s n  namespace ("" for any) and name;  par  the path above the element  *)
(*   om   omitempty;  ptr  a pointer;  sl  a slice                           *)
(*   k    a kind of Values.tla, "i8", "i16", "bytes", "tm" (a type with its  *)
(*        own text form: the text in brackets), "mx" (one with its own XML form), "attr" or "struct" (of type t)*)
(*   d    how deep it is embedded                                            *)
(* A value of it is [nm, v], nm the value of XMLName, v one record for each  *)
(* field: [nil, off, l], the values in it (one, or those of the slice), off  *)
(* when it belongs to an embedded pointer that is nil.  A value is [c] (the  *)
(* codes of its text), [st] (a struct) or [s, n, c] (an attribute).          *)
EXTENDS Values

Kind(kk) == IF kk \in {"i8", "i16"} THEN "i32" ELSE kk
Limit(kk) == IF kk = "i8" THEN Big10(<<1,2,7>>) ELSE Big10(<<3,2,7,6,7>>)
Strs == {"s", "bytes", "tm", "mx"}
AsText(kk) == IF kk \in {"tm", "mx"} THEN "s" ELSE kk
AV(c) == [s |-> "", n |-> "", v |-> IF c = <<>> THEN "" ELSE IF c = <<73,78,70>> THEN "INF" ELSE IF c = <<45,73,78,70>> THEN "-INF" ELSE "x", c |-> c, w |-> <<>>]

(* ---- fields that would be mapped to the same thing: one of them is hidden  *)
(* when it is embedded deeper, and otherwise the type is refused             *)
Clash(F, G) ==
  LET lf == Len(F.par)
      lg == Len(G.par)
      q == IF lf < lg THEN lf ELSE lg IN
  /\ F.m = G.m /\ F.m \in {"elem", "attr"}
  /\ F.s = "" \/ G.s = "" \/ F.s = G.s
  /\ SubSeq(F.par, 1, q) = SubSeq(G.par, 1, q)
  /\ IF lf > lg THEN F.par[lg + 1] = G.n ELSE IF lg > lf THEN G.par[lf + 1] = F.n ELSE F.n = G.n /\ F.s = G.s
Visible(T, i) == /\ T.f[i].m # "dash"
                 /\ ~\E j \in DOMAIN T.f : T.f[j].d < T.f[i].d /\ Clash(T.f[i], T.f[j])
RECURSIVE Conflicting(_)
Conflicting(T) ==
  \/ \E i, j \in DOMAIN T.f : i # j /\ T.f[i].d = T.f[j].d /\ Visible(T, i) /\ Visible(T, j) /\ Clash(T.f[i], T.f[j])
  \/ \E i \in DOMAIN T.f : T.f[i].k = "struct" /\ Conflicting(T.f[i].t)
Vis(T) == SelectSeq([i \in DOMAIN T.f |-> i], LAMBDA i : Visible(T, i))
First(T, Ok(_)) == LET c == SelectSeq(Vis(T), LAMBDA i : Ok(T.f[i])) IN IF c = <<>> THEN 0 ELSE c[1]
ContentField(T) == First(T, LAMBDA F : F.m \in {"chardata", "cdata"})
CommentField(T) == First(T, LAMBDA F : F.m = "comment")
InnerField(T) == First(T, LAMBDA F : F.m = "inner")
AnyField(T) == First(T, LAMBDA F : F.m = "any")
AnyAttrField(T) == First(T, LAMBDA F : F.m = "anyattr")

(* ---- scalars                                                              *)
ZeroText(kk) == IF kk \in Strs THEN <<>> ELSE IF kk = "b" THEN <<102,97,108,115,101>> ELSE <<48>>
IsZeroText(kk, c) == IF kk \in Strs THEN c = <<>> ELSE IsZero(Kind(kk), AV(c))
SameText(kk, c, d) == IF kk \in Strs \/ kk = "attr" THEN c = d ELSE SameValue(Kind(kk), AV(c), AV(d))
Written(kk, c) == IF kk = "tm" THEN <<91>> \o c \o <<93>> ELSE IF kk = "mx" THEN <<123>> \o c \o <<125>> ELSE c

(* what a text is for a kind: a value, an error, or either                   *)
Read(kk, c) ==
  IF kk \in {"s", "bytes", "attr"} THEN [e |-> "ok", c |-> c]
  ELSE IF kk = "tm" THEN
    IF Len(c) >= 2 /\ c[1] = 91 /\ c[Len(c)] = 93 THEN [e |-> "ok", c |-> SubSeq(c, 2, Len(c) - 1)] ELSE [e |-> "error", c |-> c]
  ELSE IF kk = "mx" THEN
    IF Len(c) >= 2 /\ c[1] = 123 /\ c[Len(c)] = 125 THEN [e |-> "ok", c |-> SubSeq(c, 2, Len(c) - 1)] ELSE [e |-> "error", c |-> c]
  ELSE IF c = <<>> THEN [e |-> "ok", c |-> ZeroText(kk)]
  ELSE LET a == AV(c)
           x == IntOf(c)
           small == kk \in {"i8", "i16"} /\ x.ok IN
    IF small /\ BCmp(x.v, IF x.neg THEN BAdd(Limit(kk), BNat(1)) ELSE Limit(kk)) > 0 THEN [e |-> "error", c |-> c]
    ELSE IF MustAccept(Kind(kk), a) THEN [e |-> "ok", c |-> c]
    ELSE IF MustReject(Kind(kk), a) THEN [e |-> "error", c |-> c]
    ELSE [e |-> "free", c |-> c]

(* ---- zero values                                                          *)
RECURSIVE ZeroOf(_)
ZeroField(F) ==
  [nil |-> F.ptr /\ ~F.sl, off |-> FALSE,
   l |-> IF F.ptr \/ F.sl \/ F.m = "anyattr" THEN <<>>
         ELSE IF F.k = "struct" THEN <<[st |-> ZeroOf(F.t)]>> ELSE <<[c |-> ZeroText(F.k)]>>]
ZeroOf(T) == [nm |-> [s |-> "", n |-> ""], v |-> [i \in DOMAIN T.f |-> ZeroField(T.f[i])]]

(* ---- equality of values; a slice or pointer of nothing is like none        *)
RECURSIVE SameVal(_, _, _)
SameItem(F, a, b) ==
  IF F.k = "struct" THEN SameVal(F.t, a.st, b.st)
  ELSE IF F.k = "attr" THEN a.s = b.s /\ a.n = b.n /\ a.c = b.c
  ELSE SameText(F.k, a.c, b.c)
SameField(F, a, b) ==
  \/ Len(a.l) = Len(b.l) /\ \A j \in DOMAIN a.l : SameItem(F, a.l[j], b.l[j])
  \/ /\ F.m \in {"chardata", "cdata"} /\ F.ptr                  \* nil is like a pointer to zero
     /\ \A x \in {a, b} : x.l = <<>> \/ IsZeroText(F.k, x.l[1].c)
  \/ /\ F.m = "comment" /\ Len(a.l) = 1 /\ Len(b.l) = 1         \* "-->" must not follow a hyphen
     /\ a.l[1].c # <<>> /\ a.l[1].c[Len(a.l[1].c)] = 45 /\ b.l[1].c = a.l[1].c \o <<32>>
SameVal(T, a, b) ==
  /\ \A i \in {x \in DOMAIN T.f : T.f[x].m # "dash"} : Visible(T, i) => SameField(T.f[i], a.v[i], b.v[i])
  /\ T.xn = "var" /\ a.nm.n # "" => a.nm = b.nm

(* ======================== what a value is written as ====================== *)
IsEmptyField(F, x) ==
  IF F.sl \/ F.ptr THEN x.l = <<>>
  ELSE F.k # "struct" /\ F.k # "attr" /\ IsZeroText(F.k, x.l[1].c)
Left(F, x) == x.off \/ (F.om /\ IsEmptyField(F, x)) \/ x.l = <<>>

(* the attributes, by field: namespace, name, kind, text                     *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
Attrs(T, x) ==
  LET vis == Vis(T) IN
  Concat([j \in DOMAIN vis |->
    LET F == T.f[vis[j]]
        y == x.v[vis[j]] IN
    IF F.m = "attr" /\ ~Left(F, y) THEN <<[s |-> F.s, n |-> F.n, k |-> F.k, c |-> Written(F.k, y.l[1].c)]>>
    ELSE IF F.m = "anyattr" /\ ~y.off THEN [i \in DOMAIN y.l |-> [s |-> y.l[i].s, n |-> y.l[i].n, k |-> "s", c |-> y.l[i].c]]
    ELSE <<>>])

(* the content, in the order of the fields: "e" an element below a path,     *)
(* from field f; "t" text; "c" a comment; "x" markup taken as it is          *)
Items(T, x) ==
  LET vis == Vis(T) IN
  Concat([j \in DOMAIN vis |->
    LET F == T.f[vis[j]]
        y == x.v[vis[j]] IN
    IF Left(F, y) THEN <<>>
    ELSE CASE F.m \in {"elem", "any"} -> [i \in DOMAIN y.l |-> [t |-> "e", j |-> j, F |-> F, y |-> y.l[i]]]
           [] F.m \in {"chardata", "cdata"} ->
                LET c == Written(F.k, y.l[1].c) IN IF c = <<>> THEN <<>> ELSE <<[t |-> "t", k |-> F.k, c |-> c]>>
           [] F.m = "comment" -> IF y.l[1].c = <<>> THEN <<>> ELSE <<[t |-> "c", c |-> y.l[1].c]>>
           [] F.m = "inner" -> IF y.l[1].c = <<>> THEN <<>> ELSE <<[t |-> "x", c |-> y.l[1].c]>>
           [] OTHER -> <<>>])

(* a comment that cannot be written                                          *)
BadComment(c) == \/ \E i \in 1..(Len(c) - 1) : c[i] = 45 /\ c[i + 1] = 45
                 \/ \E i \in DOMAIN c : (c[i] < 32 /\ c[i] \notin {9, 10, 13}) \/ c[i] \in {65534, 65535}
RECURSIVE Writable(_, _)
Writable(T, x) ==
  \A i \in DOMAIN T.f : Visible(T, i) /\ ~Left(T.f[i], x.v[i]) =>
    /\ T.f[i].m = "comment" => ~BadComment(x.v[i].l[1].c)
    /\ T.f[i].k = "struct" => \A j \in DOMAIN x.v[i].l : Writable(T.f[i].t, x.v[i].l[j].st)

(* ---- and whether an element el = [s, n, a, i, raw] is that.  ind: written *)
(* with indentation, which may add white space where there is no text        *)
AllWS(c) == \A i \in DOMAIN c : c[i] \in {32, 9, 10, 13}
PathSet(T) == UNION {{SubSeq(T.f[i].par, 1, q) : q \in DOMAIN T.f[i].par} : i \in DOMAIN T.f}

(* the elements, texts and comments of content, each with the path of        *)
(* elements above it and which instances of those they are                   *)
RECURSIVE Leaves(_, _, _, _)
Leaves(T, items, path, inst) ==
  Concat([j \in DOMAIN items |->
    LET it == items[j] IN
    IF it.t = "e" /\ Append(path, it.e.n) \in PathSet(T) /\ it.e.a = <<>>
    THEN Leaves(T, it.e.i, Append(path, it.e.n), Append(inst, j))
    ELSE <<[t |-> it.t, path |-> path, inst |-> inst, it |-> it]>>])

Common(p, q) == CHOOSE m \in 0..3 : (\A i \in 1..m : i <= Len(p) /\ i <= Len(q) /\ p[i] = q[i])
                                    /\ ~(m + 1 <= Len(p) /\ m + 1 <= Len(q) /\ p[m + 1] = q[m + 1])
                                    /\ m <= Len(p) /\ m <= Len(q)

(* the attributes are those asked for and no others, in any order            *)
SameAttrs(want, got) ==
  /\ Len(want) = Len(got)
  /\ \A i \in DOMAIN want : \E j \in DOMAIN got :
       got[j].s = want[i].s /\ got[j].n = want[i].n /\ SameText(AsText(want[i].k), want[i].c, got[j].c)

RECURSIVE ElemIs(_, _, _, _), NamedStruct(_, _, _, _)
(* a struct of type T with value x is the content and attributes of el       *)
ElemIs(T, x, el, ind) ==
  LET want == Items(T, x)
      text == \E j \in DOMAIN want : want[j].t = "t"
      raw == \E j \in DOMAIN want : want[j].t = "x"
      got == SelectSeq(Leaves(T, el.i, <<>>, <<>>),
                       LAMBDA g : ~(g.t = "t" /\ ind /\ ~text /\ AllWS(g.it.c))) IN
  /\ SameAttrs(Attrs(T, x), el.a)
  /\ IF raw THEN (\E j \in DOMAIN want : want[j].t = "x" /\ want[j].c = el.raw) /\ Len(want) = 1
     ELSE /\ Len(got) = Len(want)
          /\ \A j \in DOMAIN want :
               LET w1 == want[j]
                   g == got[j] IN
               CASE w1.t = "t" -> g.t = "t" /\ g.path = <<>> /\ SameText(AsText(w1.k), w1.c, g.it.c)
                 [] w1.t = "c" -> /\ g.t = "c" /\ g.path = <<>>
                                  /\ g.it.c = w1.c \/ (w1.c[Len(w1.c)] = 45 /\ g.it.c = w1.c \o <<32>>)
                 [] w1.t = "e" ->
                      /\ g.t = "e" /\ g.path = w1.F.par
                      /\ IF w1.F.k = "struct" THEN NamedStruct(w1.F, w1.y.st, g.it.e, ind)
                         ELSE /\ g.it.e.n = w1.F.n
                              /\ w1.F.s = "" \/ g.it.e.s = w1.F.s
                              /\ g.it.e.a = <<>>
                              /\ LET c == Written(w1.F.k, w1.y.c) IN
                                 IF c = <<>> THEN g.it.e.i = <<>>
                                 ELSE Len(g.it.e.i) = 1 /\ g.it.e.i[1].t = "t"
                                      /\ SameText(AsText(w1.F.k), c, g.it.e.i[1].c)
                 [] OTHER -> FALSE
          \* fields next to each other that name the same parent are enclosed in one
          /\ \A j \in 1..(Len(want) - 1) :
               want[j].t = "e" /\ want[j + 1].t = "e" /\ want[j + 1].j <= want[j].j + 1 =>
                 LET m == Common(want[j].F.par, want[j + 1].F.par) IN
                 SubSeq(got[j].inst, 1, m) = SubSeq(got[j + 1].inst, 1, m)
(* its name is that of XMLName, of the value of XMLName, or of the field     *)
NamedStruct(F, x, el, ind) ==
  LET T == F.t IN
  /\ IF T.xn = "tag" THEN el.n = T.n /\ (T.s = "" \/ el.s = T.s)
     ELSE IF T.xn = "var" /\ x.nm.n # "" THEN el.n = x.nm.n /\ el.s = x.nm.s
     ELSE el.n = F.n /\ (F.s = "" \/ el.s = F.s)
  /\ ElemIs(T, x, el, ind)

(* the whole document: start is [use, s, n, a], an element to be used instead *)
DocIs(T, x, start, el, ind) ==
  /\ IF start.use THEN el.n = start.n /\ el.s = start.s
     ELSE IF T.xn = "tag" THEN el.n = T.n /\ el.s = T.s
     ELSE el.n = x.nm.n /\ el.s = x.nm.s
  /\ IF start.use
     THEN LET own == SelectSeq(el.a, LAMBDA a : \E j \in DOMAIN start.a : start.a[j].s = a.s /\ start.a[j].n = a.n)
              rest == SelectSeq(el.a, LAMBDA a : ~\E j \in DOMAIN start.a : start.a[j].s = a.s /\ start.a[j].n = a.n) IN
          /\ SameAttrs(start.a, own)
          /\ ElemIs(T, x, [el EXCEPT !.a = rest], ind)
     ELSE ElemIs(T, x, el, ind)

(* ===================== what an element is read as ========================= *)
(* [e, v]: e "ok", "error", or "free" where the documentation leaves it open *)
Worse(a, b) == IF a = "error" \/ b = "error" THEN "error" ELSE IF a = "free" \/ b = "free" THEN "free" ELSE "ok"
TextOf(el) == Concat([j \in DOMAIN el.i |-> IF el.i[j].t = "t" THEN el.i[j].c ELSE <<>>])
CommentOf(el) == Concat([j \in DOMAIN el.i |-> IF el.i[j].t = "c" THEN el.i[j].c ELSE <<>>])

(* a text for field F that holds y                                           *)
PutText(F, y, c) ==
  LET r == Read(F.k, c)
      it == [c |-> r.c] IN
  [e |-> r.e, y |-> [nil |-> FALSE, off |-> FALSE, l |-> IF F.sl THEN Append(y.l, it) ELSE <<it>>]]

AttrField(T, a) ==
  LET exact == First(T, LAMBDA F : F.m = "attr" /\ F.s = a.s /\ F.n = a.n)
      loose == First(T, LAMBDA F : F.m = "attr" /\ F.s = "" /\ F.n = a.n) IN
  IF exact # 0 THEN exact ELSE loose

RECURSIVE ReadAttrs(_, _, _)
ReadAttrs(T, st, as) ==
  IF as = <<>> THEN st
  ELSE LET a == as[1]
           i == AttrField(T, a)
           z == AnyAttrField(T) IN
       ReadAttrs(T,
         IF i # 0 THEN LET p == PutText(T.f[i], st.v.v[i], a.c) IN
                       [e |-> Worse(st.e, p.e), v |-> [st.v EXCEPT !.v[i] = p.y]]
         ELSE IF z # 0 THEN [st EXCEPT !.v.v[z] = [nil |-> FALSE, off |-> FALSE, l |-> Append(st.v.v[z].l, [s |-> a.s, n |-> a.n, c |-> a.c])]]
         ELSE st, Tail(as))

(* the field that takes an element at a path, 0 if none does; or, in the     *)
(* second place, whether it is above such a field                            *)
TakeField(T, path, el) == First(T, LAMBDA F : F.m = "elem" /\ F.par = path /\ F.n = el.n /\ (F.s = "" \/ F.s = el.s))
Above(T, path, el) == \E i \in DOMAIN T.f : Visible(T, i) /\ T.f[i].m = "elem" /\ Len(T.f[i].par) > Len(path)
                                            /\ SubSeq(T.f[i].par, 1, Len(path) + 1) = Append(path, el.n)

RECURSIVE ReadStruct(_, _, _), ReadItems(_, _, _, _)
ReadField(F, y, el) ==
  IF F.k # "struct" THEN PutText(F, y, TextOf(el))
  ELSE LET old == IF F.sl \/ y.l = <<>> THEN ZeroOf(F.t) ELSE y.l[1].st
           r == ReadStruct(F.t, old, el)
           it == [st |-> r.v] IN
       [e |-> r.e, y |-> [nil |-> FALSE, off |-> FALSE, l |-> IF F.sl THEN Append(y.l, it) ELSE <<it>>]]
ReadItems(T, st, items, path) ==
  IF items = <<>> THEN st
  ELSE LET it == items[1]
           i == IF it.t = "e" THEN TakeField(T, path, it.e) ELSE 0
           z == IF path = <<>> THEN AnyField(T) ELSE 0 IN
       ReadItems(T,
         IF it.t # "e" THEN st
         ELSE IF i # 0 THEN LET p == ReadField(T.f[i], st.v.v[i], it.e) IN
                            [e |-> Worse(st.e, p.e), v |-> [st.v EXCEPT !.v[i] = p.y]]
         ELSE IF Above(T, path, it.e) THEN ReadItems(T, st, it.e.i, Append(path, it.e.n))
         ELSE IF z # 0 THEN LET p == ReadField(T.f[z], st.v.v[z], it.e) IN
                            [e |-> Worse(st.e, p.e), v |-> [st.v EXCEPT !.v[z] = p.y]]
         ELSE st, Tail(items), path)
ReadStruct(T, x, el) ==
  LET ok == T.xn # "tag" \/ (T.n = el.n /\ (T.s = "" \/ T.s = el.s))
      s0 == [e |-> IF ok THEN "ok" ELSE "error", v |-> [x EXCEPT !.nm = IF T.xn = "none" THEN x.nm ELSE [s |-> el.s, n |-> el.n]]]
      s1 == ReadItems(T, ReadAttrs(T, s0, el.a), el.i, <<>>)
      c == ContentField(T)
      s2 == IF c = 0 THEN s1
            ELSE LET p == PutText([T.f[c] EXCEPT !.sl = FALSE], s1.v.v[c], TextOf(el)) IN
                 [e |-> Worse(s1.e, p.e), v |-> [s1.v EXCEPT !.v[c] = p.y]]
      m == CommentField(T)
      s3 == IF m = 0 THEN s2 ELSE [s2 EXCEPT !.v.v[m] = [nil |-> FALSE, off |-> FALSE, l |-> <<[c |-> CommentOf(el)]>>]]
      q == InnerField(T) IN
  IF ~ok THEN [e |-> "error", v |-> x]
  ELSE IF q = 0 THEN s3 ELSE [s3 EXCEPT !.v.v[q] = [nil |-> FALSE, off |-> FALSE, l |-> <<[c |-> el.raw]>>]]

(* ---- fields the element does not mention: neither an attribute nor an     *)
(* element (nor, for those, content) is there for them                       *)
RECURSIVE Elems(_)
Elems(items) == UNION {{items[j].e} \cup Elems(items[j].e.i) : j \in {x \in DOMAIN items : items[x].t = "e"}}
Mentioned(T, i, el) ==
  LET F == T.f[i] IN
  CASE F.m = "attr" -> \E j \in DOMAIN el.a : el.a[j].n = F.n
    [] F.m = "anyattr" -> el.a # <<>>
    [] F.m = "elem" -> \E e \in Elems(el.i) : e.n = F.n
    [] F.m = "any" -> \E j \in DOMAIN el.i : el.i[j].t = "e"
    [] F.m = "dash" -> FALSE
    [] OTHER -> TRUE
=============================================================================
