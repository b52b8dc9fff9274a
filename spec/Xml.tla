-------------------------------- MODULE Xml --------------------------------
(* XML 1.0 with Namespaces, as far as a decoder of token streams has to know *)
(* it.  The state of the reader is [i, stk, env, toks, err, any, fin]: the   *)
(* position in the input, the open elements, the namespace bindings, the     *)
(* tokens delivered, the violation found, whether the input has left the     *)
(* part of XML that this specification describes, and whether it is over.    *)
(* Step takes the reader over one token.                                     *)
(*                                                                           *)
(* Text is a sequence of code points; a byte that is not UTF-8 is a code     *)
(* above 1114111.  A stream may have any number of root elements and text    *)
(* outside of them; directives are delivered, not interpreted.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

kXml == <<120, 109, 108>>
kXmlns == <<120, 109, 108, 110, 115>>
uXml == <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 119, 51, 46, 111, 114, 103, 47, 88, 77, 76, 47, 49, 57, 57, 56, 47, 110, 97, 109, 101, 115, 112, 97, 99, 101>>
uXmlns == <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 119, 51, 46, 111, 114, 103, 47, 50, 48, 48, 48, 47, 120, 109, 108, 110, 115, 47>>

EOFc == -1
At(s, j) == IF j >= 1 /\ j <= Len(s) THEN s[j] ELSE EOFc
Sub(s, a, b) == SubSeq(s, a, b)                 \* a..b, empty when b < a

IsS(c) == c \in {32, 9, 10, 13}
IsChar(c) == c \in {9, 10, 13} \/ c \in 32..55295 \/ c \in 57344..65533 \/ c \in 65536..1114111
Alpha(c) == c \in 65..90 \/ c \in 97..122
(* name characters: those on which the editions of XML agree                 *)
Letter(c) == \/ Alpha(c) \/ c = 95
             \/ c \in 192..214 \/ c \in 216..246 \/ c \in 248..305
             \/ c \in 913..929 \/ c \in 945..974 \/ c \in 1040..1103
             \/ c \in 19968..40869 \/ c \in 44032..55203
NonName(c) == \/ c < 128 /\ ~Alpha(c) /\ c # 95 /\ ~(c \in 48..58) /\ c # 45 /\ c # 46
              \/ c \in 128..182 \/ c \in 184..191 \/ c = 215 \/ c = 247
              \/ c \in 8208..8254 \/ c = 12288 \/ c = 65533 \/ c > 1114111
NameStart(c) == Letter(c) \/ c = 58
NameChar(c) == NameStart(c) \/ c \in 48..57 \/ c = 45 \/ c = 46 \/ c = 183
Murky(c) == c >= 0 /\ ~NameChar(c) /\ ~NonName(c)

RECURSIVE NameEnd(_, _)
NameEnd(s, j) == IF NameChar(At(s, j)) THEN NameEnd(s, j + 1) ELSE j
RECURSIVE SkipS(_, _)
SkipS(s, j) == IF IsS(At(s, j)) THEN SkipS(s, j + 1) ELSE j
Here(s, j, pat) == j + Len(pat) - 1 <= Len(s) /\ \A x \in 1..Len(pat) : s[j + x - 1] = pat[x]
RECURSIVE Find(_, _, _)                        \* 0 when there is none
Find(s, j, pat) == IF j + Len(pat) - 1 > Len(s) THEN 0 ELSE IF Here(s, j, pat) THEN j ELSE Find(s, j + 1, pat)

-----------------------------------------------------------------------------
(* references                                                                *)
Digit(c, hex) == IF c \in 48..57 THEN c - 48
                 ELSE IF hex /\ c \in 97..102 THEN c - 87
                 ELSE IF hex /\ c \in 65..70 THEN c - 55 ELSE -1
RECURSIVE Number(_, _, _, _)                   \* <<value, end>>, saturating
Number(s, j, hex, v) ==
  LET d == Digit(At(s, j), hex) IN
  IF d < 0 THEN <<v, j>>
  ELSE Number(s, j + 1, hex, IF v > 2000000 THEN v ELSE v * (IF hex THEN 16 ELSE 10) + d)

Predefined == << <<<<108, 116>>, <<60>>>>, <<<<103, 116>>, <<62>>>>, <<<<97, 109, 112>>, <<38>>>>, <<<<97, 112, 111, 115>>, <<39>>>>, <<<<113, 117, 111, 116>>, <<34>>>> >>

(* how to read: o.ents are further entities, [n, v], and o.lax is set when   *)
(* unknown references stand for themselves and end tags may be missing       *)
Strict == [ents |-> <<>>, lax |-> FALSE]

(* the reference that starts with the & at j: [end, val, err]                *)
Ref(s, j, o) ==
  IF At(s, j + 1) = 35 THEN
    LET hex == At(s, j + 2) = 120
        from == IF hex THEN j + 3 ELSE j + 2
        n == Number(s, from, hex, 0) IN
    IF n[2] = from \/ At(s, n[2]) # 59 THEN [end |-> j, val |-> <<>>, err |-> "reference"]
    ELSE IF ~IsChar(n[1]) THEN [end |-> j, val |-> <<>>, err |-> "reference to no character"]
    ELSE [end |-> n[2] + 1, val |-> <<n[1]>>, err |-> ""]
  ELSE LET e == IF NameStart(At(s, j + 1)) THEN NameEnd(s, j + 1) ELSE j + 1
           nm == Sub(s, j + 1, e - 1)
           D == {x \in DOMAIN Predefined : Predefined[x][1] = nm}
           E == {x \in DOMAIN o.ents : o.ents[x].n = nm} IN
       IF At(s, e) # 59 \/ e = j + 1 \/ (D = {} /\ E = {}) THEN [end |-> j, val |-> <<>>, err |-> "reference"]
       ELSE [end |-> e + 1, err |-> "",
             val |-> IF D # {} THEN Predefined[CHOOSE x \in D : TRUE][2] ELSE o.ents[CHOOSE x \in E : TRUE].v]

(* what ends the digits or name after an &                                   *)
RECURSIVE Markup(_, _)
Markup(s, j) == IF NameChar(At(s, j)) \/ Murky(At(s, j)) \/ At(s, j) = 35 \/ At(s, j) > 127 THEN Markup(s, j + 1) ELSE At(s, j)

(* character data up to < (q = 0) or an attribute value up to the quote q    *)
RECURSIVE Data(_, _, _, _, _)
Data(s, j, q, o, acc) ==
  LET c == At(s, j)
      bad(w) == [end |-> j, val |-> acc, err |-> w]
      done(e) == [end |-> e, val |-> acc, err |-> ""] IN
  IF c = EOFc THEN (IF q = 0 THEN done(j) ELSE bad("eof"))
  ELSE IF c = 60 THEN (IF q = 0 THEN done(j) ELSE bad("< in attribute"))
  ELSE IF q # 0 /\ c = q THEN done(j + 1)
  ELSE IF q = 0 /\ c = 93 /\ At(s, j + 1) = 93 /\ At(s, j + 2) = 62 THEN bad("]]> in text")
  ELSE IF c = 38 THEN LET r == Ref(s, j, o) IN
       IF r.err = "" THEN Data(s, r.end, q, o, acc \o r.val)
       ELSE IF o.lax /\ r.err = "reference" /\ Markup(s, j + 1) # EOFc THEN Data(s, j + 1, q, o, Append(acc, 38))
       ELSE bad(r.err)
  ELSE IF c = 13 THEN Data(s, IF At(s, j + 1) = 10 THEN j + 2 ELSE j + 1, q, o, Append(acc, IF q = 0 THEN 10 ELSE 32))
  ELSE IF q # 0 /\ c \in {9, 10} THEN Data(s, j + 1, q, o, Append(acc, 32))
  ELSE IF ~IsChar(c) THEN bad("character")
  ELSE Data(s, j + 1, q, o, Append(acc, c))

(* line ends in what is taken verbatim                                       *)
RECURSIVE Lines(_, _, _)
Lines(s, j, acc) == IF j > Len(s) THEN acc
                    ELSE IF s[j] = 13 THEN Lines(s, IF At(s, j + 1) = 10 THEN j + 2 ELSE j + 1, Append(acc, 10))
                    ELSE Lines(s, j + 1, Append(acc, s[j]))
AllChars(s) == \A j \in DOMAIN s : IsChar(s[j])

-----------------------------------------------------------------------------
(* names: [ok, p, n, end]                                                    *)
QName(s, j) ==
  LET e == IF NameStart(At(s, j)) THEN NameEnd(s, j) ELSE j
      nm == Sub(s, j, e - 1)
      C == {x \in DOMAIN nm : nm[x] = 58} IN
  IF e = j \/ Cardinality(C) > 1 \/ 1 \in C \/ Len(nm) \in C THEN [ok |-> FALSE, p |-> <<>>, n |-> <<>>, end |-> j]
  ELSE IF C = {} THEN [ok |-> TRUE, p |-> <<>>, n |-> nm, end |-> e]
  ELSE LET x == CHOOSE x \in C : TRUE IN
       [ok |-> TRUE, p |-> Sub(nm, 1, x - 1), n |-> Sub(nm, x + 1, Len(nm)), end |-> e]

RECURSIVE Lookup(_, _, _)
Lookup(env, p, j) == IF j = 0 THEN 0 ELSE IF env[j].p = p THEN j ELSE Lookup(env, p, j - 1)
(* the namespace of a prefix; an unknown prefix stands for itself            *)
Space(env, p, elem, dflt) ==
  IF p = <<>> /\ ~elem THEN <<>>
  ELSE IF p = kXml THEN uXml
  ELSE IF p = kXmlns THEN uXmlns
  ELSE LET x == Lookup(env, p, Len(env)) IN
       IF x > 0 THEN env[x].u ELSE IF p = <<>> THEN dflt ELSE p

(* the attributes of a tag from j on: [end, as, err, any]; end is at         *)
(* the > or /> that closes the tag                                           *)
RECURSIVE Attrs(_, _, _, _)
Attrs(s, j, o, as) ==
  LET k == SkipS(s, j)
      bad(w) == [end |-> k, as |-> as, err |-> w, any |-> FALSE] IN
  IF At(s, k) = 62 \/ At(s, k) = 47 THEN [end |-> k, as |-> as, err |-> "", any |-> FALSE]
  ELSE LET q == QName(s, k) IN
       IF Murky(At(s, k)) \/ Murky(At(s, q.end)) THEN [bad("murky") EXCEPT !.any = TRUE]
       ELSE IF ~q.ok THEN bad("attribute name")
       ELSE IF k = j THEN bad("no space")
       ELSE LET e == SkipS(s, q.end) IN
            IF At(s, e) # 61 THEN bad("no =")
            ELSE LET v == SkipS(s, e + 1) IN
                 IF At(s, v) # 34 /\ At(s, v) # 39 THEN bad("no quote")
                 ELSE LET d == Data(s, v + 1, At(s, v), o, <<>>) IN
                      IF d.err # "" THEN [bad(d.err) EXCEPT !.end = v]
                      ELSE IF \E x \in DOMAIN as : as[x].p = q.p /\ as[x].n = q.n THEN bad("repeated attribute")
                      ELSE Attrs(s, d.end, o, Append(as, [p |-> q.p, n |-> q.n, v |-> d.val]))

RECURSIVE Declare(_, _, _)
Declare(env, as, j) ==
  IF j > Len(as) THEN env
  ELSE Declare(IF as[j].p = kXmlns THEN Append(env, [p |-> as[j].n, u |-> as[j].v])
               ELSE IF as[j].p = <<>> /\ as[j].n = kXmlns THEN Append(env, [p |-> <<>>, u |-> as[j].v])
               ELSE env, as, j + 1)
Reserved(as) == \E j \in DOMAIN as : \/ as[j].p = kXmlns /\ as[j].n \in {kXml, kXmlns}
                                     \/ (as[j].p = kXmlns \/ (as[j].p = <<>> /\ as[j].n = kXmlns)) /\ as[j].v \in {uXml, uXmlns}

-----------------------------------------------------------------------------
(* directives: <!NAME ...> with nested <...>, quotes, and commo, which    *)
(* are replaced by a space: [end, val, ok, any]                              *)
RECURSIVE Directive(_, _, _, _, _)
Directive(s, j, depth, q, acc) ==
  LET c == At(s, j) IN
  IF c = EOFc THEN [end |-> j, val |-> acc, ok |-> FALSE, any |-> FALSE]
  ELSE IF q # 0 THEN Directive(s, j + 1, depth, IF c = q THEN 0 ELSE q, Append(acc, c))
  ELSE IF c = 62 THEN (IF depth = 0 THEN [end |-> j + 1, val |-> acc, ok |-> TRUE, any |-> FALSE]
                       ELSE Directive(s, j + 1, depth - 1, 0, Append(acc, c)))
  ELSE IF c \in {34, 39} THEN Directive(s, j + 1, depth, c, Append(acc, c))
  ELSE IF Here(s, j, <<60, 33, 45, 45>>) THEN
       LET e == Find(s, j + 4, <<45, 45, 62>>) IN
       IF e = 0 THEN [end |-> j, val |-> acc, ok |-> FALSE, any |-> FALSE]
       ELSE IF Find(Sub(s, j + 4, e + 1), 1, <<45, 45>>) # e - j - 3 THEN [end |-> j, val |-> acc, ok |-> TRUE, any |-> TRUE]
       ELSE Directive(s, e + 3, depth, 0, Append(acc, 32))
  ELSE IF c = 60 THEN Directive(s, j + 1, depth + 1, 0, Append(acc, c))
  ELSE Directive(s, j + 1, depth, 0, Append(acc, c))

(* the XML declaration, in the forms that need no interpretation             *)
Q(w) == {<<34>> \o w \o <<34>>, <<39>> \o w \o <<39>>}
kVer == <<118, 101, 114, 115, 105, 111, 110, 61>>
kEnc == <<101, 110, 99, 111, 100, 105, 110, 103, 61>>
Lower(w) == [j \in DOMAIN w |-> IF w[j] \in 65..90 THEN w[j] + 32 ELSE w[j]]
PlainDecl(inst) ==
  LET l == Lower(inst) IN
  \E v \in Q(<<49, 46, 48>>), e \in Q(<<117, 116, 102, 45, 56>>), w \in {<<>>, <<32>>} :
     inst = kVer \o v \o w \/ (l = kVer \o v \o <<32>> \o kEnc \o e \o w /\ Sub(inst, 1, 7) = kVer /\ \E y \in Q(<<117, 116, 102, 45, 56>>) \cup Q(<<85, 84, 70, 45, 56>>) : inst = kVer \o v \o <<32>> \o kEnc \o y \o w)
OtherDecl(inst) ==
  \E v \in Q(<<49, 46, 48>>), e \in Q(<<105, 115, 111, 45, 56, 56, 53, 57, 45, 49>>) : inst = kVer \o v \o <<32>> \o kEnc \o e

-----------------------------------------------------------------------------
Tok(k, p, n, a, t, e) == [k |-> k, p |-> p, n |-> n, a |-> a, t |-> t, e |-> e]
Start(s) == [i |-> 1, stk |-> <<>>, env |-> <<>>, toks |-> <<>>, err |-> "", any |-> FALSE, fin |-> FALSE]
Fail(st, w) == [st EXCEPT !.err = w, !.fin = TRUE]
Leave(st) == [st EXCEPT !.any = TRUE, !.fin = TRUE]
Give(st, t, e) == [st EXCEPT !.toks = Append(st.toks, t), !.i = e]

EndTag(s, st, o) ==
  LET q == QName(s, st.i + 2)
      e == SkipS(s, q.end) IN
  IF Murky(At(s, st.i + 2)) \/ Murky(At(s, q.end)) THEN Leave(st)
  ELSE IF ~q.ok THEN Fail(st, "end tag name")
  ELSE IF At(s, e) # 62 THEN Fail(st, "end tag")
  ELSE IF st.stk = <<>> THEN Fail(st, "end tag without start tag")
  ELSE LET top == st.stk[Len(st.stk)] IN
       IF o.lax /\ top.n # q.n THEN             \* the end tag of this element is missing
            [Give(st, Tok("end", top.p, top.n, <<>>, <<>>, e), st.i) EXCEPT
               !.stk = Sub(st.stk, 1, Len(st.stk) - 1), !.env = Sub(st.env, 1, top.m)]
       ELSE IF top.p # q.p \/ top.n # q.n THEN Fail(st, "end tag of another element")
       ELSE [Give(st, Tok("end", q.p, q.n, <<>>, <<>>, e), e + 1) EXCEPT
               !.stk = Sub(st.stk, 1, Len(st.stk) - 1), !.env = Sub(st.env, 1, top.m)]

StartTag(s, st, o) ==
  LET q == QName(s, st.i + 1) IN
  IF Murky(At(s, st.i + 1)) \/ Murky(At(s, q.end)) THEN Leave(st)
  ELSE IF ~q.ok THEN Fail(st, "tag name")
  ELSE LET a == Attrs(s, q.end, o, <<>>)
           empty == At(s, a.end) = 47
           e == IF empty THEN a.end + 1 ELSE a.end IN
       IF a.any THEN Leave(st)
       ELSE IF a.err # "" THEN Fail(st, a.err)
       ELSE IF At(s, e) # 62 THEN Fail(st, "tag not closed")
       ELSE IF \E j \in DOMAIN a.as : a.as[j].p = kXmlns /\ a.as[j].v = <<>> THEN Fail(st, "empty namespace")
       ELSE IF Reserved(a.as) \/ q.p = kXmlns \/ (q.p = <<>> /\ q.n = kXmlns) THEN Leave(st)
       ELSE LET env2 == Declare(st.env, a.as, 1)
                open == [Give(st, Tok("start", q.p, q.n, a.as, <<>>, e), e + 1) EXCEPT
                           !.stk = Append(st.stk, [p |-> q.p, n |-> q.n, m |-> Len(st.env)]), !.env = env2] IN
            IF ~empty THEN open
            ELSE [Give(open, Tok("end", q.p, q.n, <<>>, <<>>, e), e + 1) EXCEPT !.stk = st.stk, !.env = st.env]

Comment(s, st) ==
  LET e == Find(s, st.i + 4, <<45, 45>>)
      body == Sub(s, st.i + 4, e - 1) IN
  IF e = 0 THEN Fail(st, "comment not closed")
  ELSE IF At(s, e + 2) # 62 THEN Fail(st, "-- in comment")
  ELSE IF ~AllChars(body) THEN Fail(st, "character")
  ELSE Give(st, Tok("comment", <<>>, <<>>, <<>>, body, e + 2), e + 3)

Instr(s, st) ==
  LET n == IF NameStart(At(s, st.i + 2)) THEN NameEnd(s, st.i + 2) ELSE st.i + 2
      target == Sub(s, st.i + 2, n - 1)
      d == SkipS(s, n)
      e == Find(s, d, <<63, 62>>)
      body == Sub(s, d, e - 1) IN
  IF Murky(At(s, st.i + 2)) \/ Murky(At(s, n)) THEN Leave(st)
  ELSE IF n = st.i + 2 THEN Fail(st, "target")
  ELSE IF At(s, n) > 127 THEN Fail(st, "target")
  ELSE IF e = 0 THEN Fail(st, "instruction not closed")
  ELSE IF Lower(target) = kXml /\ ~(target = kXml /\ st.i = 1 /\ PlainDecl(body)) THEN
       (IF target = kXml /\ st.i = 1 /\ OtherDecl(body) THEN Fail(st, "encoding") ELSE Leave(st))
  ELSE IF ~AllChars(body) THEN Fail(st, "character")
  ELSE IF d = n /\ e # n THEN Fail(st, "no space")
  ELSE Give(st, Tok("pi", <<>>, target, <<>>, body, e + 1), e + 2)

CData(s, st) ==
  LET e == Find(s, st.i + 9, <<93, 93, 62>>)
      body == Sub(s, st.i + 9, e - 1) IN
  IF e = 0 THEN Fail(st, "CDATA not closed")
  ELSE IF ~AllChars(body) THEN Fail(st, "character")
  ELSE Give(st, Tok("text", <<>>, <<>>, <<>>, Lines(body, 1, <<>>), e + 2), e + 3)

Step(s, st, o) ==
  LET i == st.i IN
  IF i > Len(s) THEN (IF st.stk # <<>> THEN Fail(st, "elements left open") ELSE [st EXCEPT !.fin = TRUE])
  ELSE IF s[i] # 60 THEN
       LET d == Data(s, i, 0, o, <<>>) IN
       IF d.err # "" THEN Fail(st, d.err)
       ELSE Give(st, Tok("text", <<>>, <<>>, <<>>, d.val, d.end - 1), d.end)
  ELSE IF At(s, i + 1) = 47 THEN EndTag(s, st, o)
  ELSE IF At(s, i + 1) = 63 THEN Instr(s, st)
  ELSE IF Here(s, i, <<60, 33, 45, 45>>) THEN Comment(s, st)
  ELSE IF Here(s, i, <<60, 33, 91, 67, 68, 65, 84, 65, 91>>) THEN CData(s, st)
  ELSE IF At(s, i + 1) = 33 THEN
       (IF ~Alpha(At(s, i + 2)) THEN (IF At(s, i + 2) \in {45, 91, EOFc} THEN Fail(st, "markup declaration") ELSE Leave(st))
        ELSE LET d == Directive(s, i + 2, 0, 0, <<>>) IN
             IF d.any THEN Leave(st)
             ELSE IF ~d.ok THEN Fail(st, "directive not closed")
             ELSE IF ~AllChars(Sub(s, i, d.end - 1)) THEN (IF AllChars(d.val) THEN Leave(st) ELSE Fail(st, "character"))
             ELSE Give(st, Tok("dir", <<>>, <<>>, <<>>, d.val, d.end - 1), d.end))
  ELSE StartTag(s, st, o)

RECURSIVE Run(_, _, _)
Run(s, st, o) == IF st.fin THEN st ELSE Run(s, Step(s, st, o), o)
Parse(s, o) == Run(s, Start(s), o)

-----------------------------------------------------------------------------
(* the tokens with their names in namespaces                                 *)
RECURSIVE Resolve(_, _, _, _, _)
Resolve(toks, j, marks, env, dflt) ==
  IF j > Len(toks) THEN <<>>
  ELSE LET t == toks[j] IN
       IF t.k = "start" THEN
          LET env2 == Declare(env, t.a, 1) IN
          <<[k |-> "start", s |-> Space(env2, t.p, TRUE, dflt), n |-> t.n, t |-> <<>>, e |-> t.e,
             a |-> [x \in DOMAIN t.a |-> [s |-> Space(env2, t.a[x].p, FALSE, dflt), n |-> t.a[x].n, v |-> t.a[x].v]]]>>
          \o Resolve(toks, j + 1, Append(marks, Len(env)), env2, dflt)
       ELSE IF t.k = "end" THEN
          <<[k |-> "end", s |-> Space(env, t.p, TRUE, dflt), n |-> t.n, t |-> <<>>, e |-> t.e, a |-> <<>>]>>
          \o Resolve(toks, j + 1, Sub(marks, 1, Len(marks) - 1), Sub(env, 1, marks[Len(marks)]), dflt)
       ELSE <<[k |-> t.k, s |-> <<>>, n |-> t.n, t |-> t.t, e |-> t.e, a |-> <<>>]>> \o Resolve(toks, j + 1, marks, env, dflt)
Resolved(toks, dflt) == Resolve(toks, 1, <<>>, <<>>, dflt)
RawOf(toks) == [j \in DOMAIN toks |-> [k |-> toks[j].k, s |-> toks[j].p, n |-> toks[j].n, t |-> toks[j].t, e |-> toks[j].e,
                 a |-> [x \in DOMAIN toks[j].a |-> [s |-> toks[j].a[x].p, n |-> toks[j].a[x].n, v |-> toks[j].a[x].v]]]]

(* neighbouring pieces of text are one text, and no text is none             *)
RECURSIVE Glue(_, _)
Glue(toks, acc) ==
  IF toks = <<>> THEN acc
  ELSE LET t == Head(toks)
           l == Len(acc) IN
       IF t.k # "text" THEN Glue(Tail(toks), Append(acc, t))
       ELSE IF t.t = <<>> THEN Glue(Tail(toks), acc)
       ELSE IF l > 0 /\ acc[l].k = "text" THEN Glue(Tail(toks), [acc EXCEPT ![l] = [t EXCEPT !.t = acc[l].t \o t.t]])
       ELSE Glue(Tail(toks), Append(acc, t))
Normal(toks) == Glue(toks, <<>>)

(* start and end tags are properly nested: the names still open, or <<<<>>>> *)
RECURSIVE Open(_, _, _)
Open(toks, j, stk) ==
  IF j > Len(toks) THEN stk
  ELSE LET t == toks[j]
           l == Len(stk) IN
       IF t.k = "start" THEN Open(toks, j + 1, Append(stk, <<t.s, t.n>>))
       ELSE IF t.k # "end" THEN Open(toks, j + 1, stk)
       ELSE IF l = 0 \/ stk[l] # <<t.s, t.n>> THEN <<<<>>>>
       ELSE Open(toks, j + 1, Sub(stk, 1, l - 1))
Nested(toks) == Open(toks, 1, <<>>) # <<<<>>>>

-----------------------------------------------------------------------------
(* one way to write the tokens                                               *)
RECURSIVE Concat(_, _)
Concat(f, j) == IF j > Len(f) THEN <<>> ELSE f[j] \o Concat(f, j + 1)
EscC(c, attr) == CASE c = 38 -> <<38, 97, 109, 112, 59>>
                   [] c = 60 -> <<38, 108, 116, 59>>
                   [] c = 62 -> <<38, 103, 116, 59>>
                   [] c = 13 -> <<38, 35, 49, 51, 59>>
                   [] attr /\ c = 34 -> <<38, 35, 51, 52, 59>>
                   [] attr /\ c = 10 -> <<38, 35, 49, 48, 59>>
                   [] attr /\ c = 9 -> <<38, 35, 57, 59>>
                   [] OTHER -> <<c>>
Esc(t, attr) == Concat([j \in DOMAIN t |-> EscC(t[j], attr)], 1)
Full(p, n) == IF p = <<>> THEN n ELSE p \o <<58>> \o n
Render(t) == CASE t.k = "start" -> <<60>> \o Full(t.p, t.n) \o
                     Concat([j \in DOMAIN t.a |-> <<32>> \o Full(t.a[j].p, t.a[j].n) \o <<61, 34>> \o Esc(t.a[j].v, TRUE) \o <<34>>], 1) \o <<62>>
               [] t.k = "end" -> <<60, 47>> \o Full(t.p, t.n) \o <<62>>
               [] t.k = "text" -> Esc(t.t, FALSE)
               [] t.k = "comment" -> <<60, 33, 45, 45>> \o t.t \o <<45, 45, 62>>
               [] t.k = "pi" -> <<60, 63>> \o t.n \o <<32>> \o t.t \o <<63, 62>>
               [] t.k = "dir" -> <<60, 33>> \o t.t \o <<62>>
RenderAll(toks) == Concat([j \in DOMAIN toks |-> Render(toks[j])], 1)
=============================================================================
