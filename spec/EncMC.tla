------------------------------- MODULE EncMC -------------------------------
(* Every sequence of up to MaxLen of the tokens in Letters.  For each, a     *)
(* simple encoder that declares a new prefix for every name (Ref) satisfies  *)
(* the contract, what it writes for other tokens does not, and the sequence  *)
(* is exported.                                                              *)
EXTENDS Enc, TLC, Json
CONSTANTS MaxLen, Letters

A1 == <<97>>
B1 == <<98>>
PA == <<112, 58, 97>>
QA == <<113, 58, 97>>
U == <<117>>
V == <<104, 58, 47, 47, 120, 47, 118>>
V2 == <<104, 58, 47, 47, 121, 47, 118>>
St(s, n, a) == [T0 EXCEPT !.k = "start", !.s = s, !.n = n, !.a = a]
En(s, n) == [T0 EXCEPT !.k = "end", !.s = s, !.n = n]
D(t, k) == [T0 EXCEPT !.k = k, !.t = t]
At3(s, n, v) == [s |-> s, n |-> n, v |-> v]
Xm(p, u) == IF p = <<>> THEN At3(<<>>, kXmlns, u) ELSE At3(uXmlns, p, u)

Alphabet == <<
  St(<<>>, A1, <<>>),                                                     \* 1
  St(U, A1, <<>>),                                                        \* 2
  St(U, PA, <<>>),                                                        \* 3
  St(V, PA, <<>>),                                                        \* 4
  St(V, A1, << At3(V, B1, U), At3(V2, B1, <<>>) >>),                      \* 5
  En(<<>>, A1),                                                           \* 6
  En(U, A1),                                                              \* 7
  En(V, A1),                                                              \* 8
  D(<<120>>, "text"),                                                     \* 9
  St(U, A1, << Xm(<<>>, U) >>),                                           \* 10
  St(U, A1, << Xm(<<>>, V) >>),                                           \* 11
  St(<<>>, A1, << Xm(<<>>, V), At3(<<>>, B1, <<60, 38, 34, 10, 9, 13, 62>>) >>),  \* 12
  St(U, A1, << Xm(<<112>>, V), At3(V, B1, U), At3(U, B1, V) >>),          \* 13
  St(<<>>, A1, << At3(U, <<112, 58, 98>>, <<>>), At3(V, <<112, 58, 98>>, <<>>), At3(V2, <<112, 58, 98>>, <<>>) >>), \* 14
  St(U, QA, << Xm(<<113>>, V) >>),                                        \* 15
  St(<<>>, A1, << Xm(<<>>, <<>>) >>),                                     \* 16
  St(V, A1, << Xm(<<118>>, U), At3(V2, A1, <<1, 32>>) >>),                \* 17
  St(<<>>, A1, << Xm(<<112>>, U), Xm(<<113>>, U), At3(U, B1, <<>>) >>),   \* 18
  En(U, PA),                                                              \* 19
  En(<<>>, B1),                                                           \* 20
  En(U, QA),                                                              \* 21
  [T0 EXCEPT !.k = "begin"],                                              \* 22
  [T0 EXCEPT !.k = "finish"],                                             \* 23
  [T0 EXCEPT !.k = "flush"],                                              \* 24
  D(<<99>>, "comment"),                                                   \* 25
  D(<<45, 120>>, "comment"),                                              \* 26
  D(<<120, 45>>, "comment"),                                              \* 27
  D(<<45, 45>>, "comment"),                                               \* 28
  D(<<100>>, "dir"),                                                      \* 29
  D(<<100, 62>>, "dir"),                                                  \* 30
  D(<<45, 45, 100>>, "dir"),                                              \* 31
  D(<<100, 60, 39, 62, 39, 62>>, "dir"),                                  \* 32
  [D(<<105>>, "pi") EXCEPT !.n = <<116>>],                                \* 33
  [D(<<>>, "pi") EXCEPT !.n = <<116>>],                                   \* 34
  [D(<<63, 62>>, "pi") EXCEPT !.n = <<116>>],                             \* 35
  [D(<<105>>, "pi") EXCEPT !.n = <<49>>],                                 \* 36
  [D(kVer \o <<34, 49, 46, 48, 34>>, "pi") EXCEPT !.n = kXml],            \* 37
  D(<<>>, "text"),                                                        \* 38
  D(<<32, 10>>, "text"),                                                  \* 39
  D(<<93, 93, 62, 60, 38, 13, 0>>, "text"),                               \* 40
  D(<<1>>, "comment"),                                                    \* 41
  D(<<100, 34>>, "dir"),                                                  \* 42
  D(<<>>, "dir"),                                                         \* 43
  St(<<>>, <<>>, <<>>),                                                   \* 44
  En(<<>>, <<>>),                                                         \* 45
  St(U, A1, << At3(uXml, <<108>>, U), At3(<<>>, <<>>, U) >>),             \* 46
  St(V2, A1, << Xm(<<>>, V), Xm(<<95>>, V2) >>),                          \* 47
  D(<<>>, "comment"),                                                     \* 48
  D(<<60>>, "dir"), D(<<91, 100>>, "dir"),                                \* 49, 50
  D(<<100, 60, 33, 45, 45, 62>>, "dir"),                                  \* 51
  D(<<100, 60, 33, 45, 45, 62, 45, 45, 62, 62>>, "dir"),                  \* 52
  D(<<100, 60, 33, 45, 45, 34, 45, 45, 62, 60, 34, 60, 34, 62>>, "dir")   \* 53
>>

VARIABLES s, m, w
vars == <<s, m, w>>
Init == s = <<>> /\ m = Fresh /\ w = "yes"
Next == /\ Len(s) < MaxLen /\ ~m.over
        /\ \E i \in Letters :
             LET t == Alphabet[i]
                 x == Takes(m, t) IN
             /\ s' = Append(s, i)
             /\ m' = Turn(m, t, x # "no")
             /\ w' = IF x = "any" THEN "any" ELSE w
Spec == Init /\ [][Next]_vars

(* the simple encoder                                                        *)
P1(j) == <<110, 48 + j>>
P2(j, i) == <<109, 48 + j, 65 + i>>
RECURSIVE RefAttrs(_, _, _)
RefAttrs(as, j, i) ==
  IF i > Len(as) THEN <<>>
  ELSE LET a == as[i]
           b == Bare(a.n) IN
       (IF a.n = <<>> THEN <<>>
        ELSE IF Decl(a) THEN << [p |-> IF a.s = <<>> THEN <<>> ELSE kXmlns, n |-> a.n, v |-> San(a.v)] >>
        ELSE IF a.s = <<>> THEN << [p |-> <<>>, n |-> b, v |-> San(a.v)] >>
        ELSE IF a.s = uXml THEN << [p |-> kXml, n |-> b, v |-> San(a.v)] >>
        ELSE << [p |-> kXmlns, n |-> P2(j, i), v |-> San(a.s)], [p |-> P2(j, i), n |-> b, v |-> San(a.v)] >>)
       \o RefAttrs(as, j, i + 1)
RefStart(t, j) ==
  [AsXml(t) EXCEPT !.n = Bare(t.n), !.p = IF t.s = <<>> THEN <<>> ELSE P1(j),
     !.a = (IF t.s = <<>> THEN <<>> ELSE << [p |-> kXmlns, n |-> P1(j), v |-> t.s] >>) \o RefAttrs(t.a, j, 1)]
RECURSIVE RefToks(_, _, _)
RefToks(toks, j, open) ==
  IF j > Len(toks) THEN <<>>
  ELSE LET t == toks[j] IN
       IF t.k = "start" THEN <<RefStart(t, j)>> \o RefToks(toks, j + 1, Append(open, j))
       ELSE IF t.k = "end" THEN LET o == RefStart(toks[open[Len(open)]], open[Len(open)]) IN
            <<[o EXCEPT !.k = "end", !.a = <<>>]>> \o RefToks(toks, j + 1, Sub(open, 1, Len(open) - 1))
       ELSE <<[AsXml(t) EXCEPT !.t = IF t.k = "text" THEN San(t.t) ELSE t.t]>> \o RefToks(toks, j + 1, open)
PiRender(t) == IF t.k = "pi" /\ t.t = <<>> THEN <<60, 63>> \o t.n \o <<63, 62>> ELSE Render(t)
RefText(toks) == LET R == RefToks(toks, 1, <<>>) IN Concat([j \in DOMAIN R |-> PiRender(R[j])], 1)

NoInd == [prefix |-> <<>>, indent |-> <<>>]
Others(t) ==                                           \* tokens that are not t
  CASE t.k = "start" -> {[t EXCEPT !.s = <<122>>], [t EXCEPT !.n = <<122>>], [t EXCEPT !.a = Append(t.a, At3(V, <<122>>, <<>>))]}
                        \cup {[t EXCEPT !.a[i].v = <<122>>] : i \in {i \in DOMAIN t.a : t.a[i].n # <<>>}}
                        \cup {[t EXCEPT !.a[i].s = <<122>>] : i \in {i \in DOMAIN t.a : t.a[i].n # <<>>}}
    [] t.k = "text" -> {[t EXCEPT !.t = Append(t.t, 122)]} \cup {[t EXCEPT !.t = <<>>] : i \in {i \in {1} : t.t # <<>>}}
    [] t.k = "end" -> {}
    [] OTHER -> {[t EXCEPT !.t = Append(t.t, 122)]}
Laws ==
  (w = "yes" /\ ~m.over) =>
    LET o == RefText(m.out)
        open == OpenTags(m) IN
    /\ Reading(m.out, open, NoInd, o) = "ok"
    /\ \A j \in DOMAIN m.out : \A t \in Others(m.out[j]) : Reading([m.out EXCEPT ![j] = t], open, NoInd, o) # "ok"
    /\ \A j \in DOMAIN m.out : (m.out[j].k # "text" \/ m.out[j].t # <<>>) =>
          Reading(Sub(m.out, 1, j - 1) \o Sub(m.out, j + 1, Len(m.out)), open, NoInd, o) # "ok"
    /\ Reading(m.out, ~open, NoInd, o) # "ok"
Export == s = <<>> \/ PrintT("##" \o ToJson([toks |-> [j \in DOMAIN s |-> Alphabet[s[j]]]]))
=============================================================================
