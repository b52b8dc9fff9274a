------------------------------ MODULE XmlTrace ------------------------------
(* What decoders delivered for a text, judged against the reader of Xml.tla. *)
(* A record r holds the text r.s, the entities and default namespace given   *)
(* to the decoder, and                                                       *)
(*   toks, err   the tokens and the error of Token                           *)
(*   raw, rerr   those of RawToken                                           *)
(*   lax, lerr   those of Token when it is not strict                        *)
(*   auto        the tags when some elements are closed automatically        *)
(*   pos         offset, line and column reported after each token           *)
(*   same        digests of what Token delivered over other readers          *)
(*   after       results other than an error after the first error           *)
(*   skip        where Skip arrived from the start tag number j              *)
(*   fault       what Token delivered when the reader failed after k codes   *)
(*   wide        what was wrong with the tokens of the same text with a      *)
(*               letter written many times (XmlMC!Uniform), or pushed back   *)
(*   ref         what the independent parser of the harness made of it       *)
(* r.conv is set when the text was read in the encoding it declares.         *)
EXTENDS RecCheck, Xml

(* bytes of the characters in s[a..b]                                        *)
Bytes(s, a, b) == LET N2(m) == Cardinality({j \in a..b : s[j] >= m /\ s[j] <= 1114111}) IN
                  (b - a + 1) + N2(128) + N2(2048) + N2(65536)
LineStart(s, e) == LET J == {0} \cup {j \in 1..e : s[j] = 10} IN CHOOSE j \in J : \A h \in J : h <= j
Col(s, e) == 1 + Bytes(s, LineStart(s, e) + 1, e)
Lines1(s, e) == 1 + Cardinality({j \in 1..e : s[j] = 10})

IsPrefix1(a, b) == Len(a) <= Len(b) /\ Sub(b, 1, Len(a)) = a
(* tokens without the text at the end                                        *)
Firm(toks) == IF toks # <<>> /\ toks[Len(toks)].k = "text" THEN Sub(toks, 1, Len(toks) - 1) ELSE toks
NoE(toks) == [j \in DOMAIN toks |-> [toks[j] EXCEPT !.e = 0]]

(* where the element that starts with token j ends                           *)
RECURSIVE Closes(_, _, _)
Closes(toks, j, depth) ==
  IF j > Len(toks) THEN 0
  ELSE IF toks[j].k = "start" THEN Closes(toks, j + 1, depth + 1)
  ELSE IF toks[j].k = "end" THEN (IF depth = 1 THEN j ELSE Closes(toks, j + 1, depth - 1))
  ELSE Closes(toks, j + 1, depth)

(* the token that is start tag number j                                      *)
RECURSIVE Nth(_, _, _)
Nth(toks, x, j) == IF x > Len(toks) THEN 0
                   ELSE IF toks[x].k # "start" THEN Nth(toks, x + 1, j)
                   ELSE IF j = 1 THEN x ELSE Nth(toks, x + 1, j - 1)

(* tokens whose last character is among the first k, and all before them     *)
Within(toks, m) == LET J == {0} \cup {j \in DOMAIN toks : toks[j].k # "text" /\ toks[j].e <= m} IN
                   CHOOSE j \in J : \A h \in J : h <= j

(* a text in another encoding is the same text once its declaration is read  *)
Converted(s, o) == LET d == Find(s, 1, <<63, 62>>) IN
                   Run(s, Give(Start(s), Tok("pi", <<>>, kXml, <<>>, Sub(s, 7, d - 1), d + 1), d + 2), o)
Read(r, o) == LET P == Parse(r.s, o) IN IF r.conv /\ P.err = "encoding" THEN Converted(r.s, o) ELSE P

TokenVerdict(r) ==
  LET O == [ents |-> r.ents, lax |-> FALSE]
      P == Read(r, O)
      Z == Read(r, [O EXCEPT !.lax = TRUE])
      R == Resolved(P.toks, r.dflt)
      T == Normal(R)
      U == Normal(Resolved(Z.toks, r.dflt))
      G == Normal(r.toks)
      L == Normal(r.lax)
      RW == Normal(RawOf(P.toks))
      RG == Normal(r.raw) IN
  IF r.pan # "" THEN "panic"
  ELSE IF r.err = "endless" \/ r.rerr = "endless" \/ r.lerr = "endless" THEN "tokens without end"
  ELSE IF ~Nested(r.toks) THEN "tags delivered are not nested"
  ELSE IF r.err = "eof" /\ Open(r.toks, 1, <<>>) # <<>> THEN "elements left open at the end"
  ELSE IF ~Nested(r.lax) \/ (r.lerr = "eof" /\ Open(r.lax, 1, <<>>) # <<>>) THEN "tags delivered are not nested (not strict)"
  ELSE IF ~Nested(r.auto) THEN "tags delivered are not nested (closed automatically)"
  ELSE IF r.wide # "" THEN r.wide
  ELSE IF r.after # 0 THEN "more after an error"
  ELSE IF \E j \in DOMAIN r.same : r.same[j] # r.same[1] THEN "the tokens depend on how the text is read"
  ELSE IF \E j \in DOMAIN r.fault : LET x == r.fault[j] IN
             \/ ~x.pre \/ x.n < Within(r.toks, x.k)
             \/ x.err # "reader" /\ (x.err # r.err \/ x.err = "eof" \/ x.n # Len(r.toks)) THEN "a failing reader"
  ELSE IF P.any THEN (IF IsPrefix1(Firm(T), G) THEN "ok" ELSE "tokens before unusual markup")
  ELSE IF P.err # "" /\ r.err = "eof" THEN "accepted: " \o P.err
  ELSE IF P.err = "encoding" /\ r.err # "other" THEN "unknown encoding"
  ELSE IF P.err \notin {"", "encoding"} /\ r.err # "syntax" THEN "not a syntax error: " \o P.err
  ELSE IF P.err = "" /\ r.err # "eof" THEN "rejected"
  ELSE IF NoE(G) # NoE(T) THEN "the tokens differ"
  ELSE IF G # T THEN "the offsets differ"
  ELSE IF ~IsPrefix1(Firm(RW), RG) \/ (P.err = "" /\ (RG # RW \/ r.rerr # "eof")) THEN "raw tokens"
  ELSE IF ~Z.any /\ Z.err = "" /\ r.lerr # "eof" THEN "not strict: rejected"
  ELSE IF ~Z.any /\ Z.err = "" /\ L # U THEN "not strict: the tokens differ"
  ELSE IF ~IsPrefix1(Firm(U), L) THEN "not strict: tokens before an error"
  ELSE IF \E j \in DOMAIN r.pos : LET x == r.pos[j] IN
             x.e <= Len(r.s) /\ (x.l # Lines1(r.s, x.e) \/ x.c # Col(r.s, x.e)) THEN "line or column"
  ELSE IF \E j \in DOMAIN r.skip : LET x == r.skip[j]
                                        i == Nth(R, 1, x.j)
                                        y == Closes(R, i, 0) IN
             IF y = 0 THEN ~x.err ELSE (x.err \/ x.e # R[y].e) THEN "Skip"
  ELSE IF r.line # 0 /\ ~(r.line \in (IF P.toks = <<>> THEN 1 ELSE Lines1(r.s, P.toks[Len(P.toks)].e))..Lines1(r.s, Len(r.s))) THEN "line of the error"
  ELSE "ok"

(* the parser used to judge documents is no more lenient than this reader,   *)
(* and sees the same elements and text                                       *)
RECURSIVE Inside(_, _, _)
Inside(toks, j, depth) ==                       \* no text outside of elements, no declarations
  IF j > Len(toks) THEN <<>>
  ELSE LET t == toks[j] IN
       IF t.k = "start" THEN <<[t EXCEPT !.a = SelectSeq(t.a, LAMBDA a : a.s # uXmlns /\ ~(a.s = <<>> /\ a.n = kXmlns))]>> \o Inside(toks, j + 1, depth + 1)
       ELSE IF t.k = "end" THEN <<t>> \o Inside(toks, j + 1, depth - 1)
       ELSE IF t.k = "text" /\ depth > 0 THEN <<t>> \o Inside(toks, j + 1, depth)
       ELSE Inside(toks, j + 1, depth)
AsSet(toks) == [j \in DOMAIN toks |-> [toks[j] EXCEPT !.a = {toks[j].a[x] : x \in DOMAIN toks[j].a}, !.e = 0]]
RefVerdict(r) ==
  LET P == Parse(r.s, Strict)
      T == Normal(Inside(Resolved(P.toks, <<>>), 1, 0)) IN
  IF P.any \/ ~r.ref.ok THEN "ok"
  ELSE IF P.err # "" THEN "the referee accepts: " \o P.err
  ELSE IF AsSet(Normal(r.ref.toks)) # AsSet(T) THEN "the referee sees other tokens"
  ELSE "ok"

Both(r) == LET w == TokenVerdict(r) IN IF w # "ok" THEN w ELSE RefVerdict(r)
=============================================================================
