-------------------------------- MODULE Enc --------------------------------
(* The encoder of token streams: which tokens it takes, and what a reader    *)
(* finds in what it writes.  A token t is                                    *)
(*   start  s, n, a    namespace, name (p:n when a prefix is wished for) and *)
(*                     attributes [s, n, v], declarations among them         *)
(*   end    s, n                                                             *)
(*   text, comment, dir  t        pi  n, t                                   *)
(*   begin, finish     what lies between is written by a value that marshals *)
(*                     itself, and may only touch elements it has opened     *)
(*   flush                                                                   *)
(* The machine is [stk, out, w, over]: the open elements with the frames of  *)
(* begin among them, the tokens taken, what has been written ("no", "empty"  *)
(* when nothing but empty text, "yes"), and whether it is to be left alone   *)
(* because a frame was left in disorder.                                     *)
EXTENDS Text

T0 == [k |-> "", s |-> <<>>, n |-> <<>>, a |-> <<>>, t |-> <<>>]
Fresh == [stk |-> <<>>, out |-> <<>>, w |-> "no", over |-> FALSE]
Frame == [s |-> <<>>, n |-> <<>>, p |-> <<>>]

Colon(n) == LET C == {j \in DOMAIN n : n[j] = 58} IN IF C = {} THEN 0 ELSE CHOOSE j \in C : \A h \in C : j <= h
Pre(n) == IF Colon(n) <= 1 \/ Colon(n) = Len(n) THEN <<>> ELSE Sub(n, 1, Colon(n) - 1)
Bare(n) == IF Pre(n) = <<>> THEN n ELSE Sub(n, Colon(n) + 1, Len(n))
Top(m) == m.stk[Len(m.stk)]

(* comments, instructions and directives can be written when a reader finds  *)
(* them in what they look like                                               *)
AsXml(t) == [k |-> t.k, p |-> <<>>, n |-> t.n, a |-> <<>>, t |-> t.t, e |-> 0]
Hidden(t) == \E j \in 1..Len(t) - 3 : Here(t, j, <<60, 33, 45, 45>>)
Writable(t) ==
  LET P == Parse(IF t.k = "pi" /\ t.t = <<>> THEN <<60, 63>> \o t.n \o <<63, 62>> ELSE Render(AsXml(t)), Strict) IN
  IF \/ t.k = "dir" /\ t.t # <<>> /\ ~Alpha(t.t[1]) /\ t.t[1] \notin {45, 91, 60, 34, 39}
     \/ t.k = "pi" /\ t.t # <<>> /\ IsS(t.t[1])            \* nor is white space before the instruction
     \/ t.k = "pi" /\ Lower(t.n) = kXml /\ (t.n # kXml \/ ~PlainDecl(t.t))
     \/ \E j \in DOMAIN t.t : t.t[j] = 13                 \* line ends may become others
     THEN "any"
  ELSE IF t.k = "dir" /\ (t.t = <<>> \/ t.t[1] \in {45, 91, 60, 34, 39}) THEN "no"
  ELSE IF P.any THEN "any"
  ELSE IF P.err = "" /\ Len(P.toks) = 1 /\ ([P.toks[1] EXCEPT !.e = 0] = AsXml(t) \/ (t.k = "dir" /\ P.toks[1].k = "dir" /\ Hidden(t.t))) THEN "yes"
  ELSE "no"

(* whether the encoder takes the token: "yes", "no" or "any"                 *)
Takes(m, t) ==
  IF t.k = "start" THEN (IF t.n = <<>> THEN "no" ELSE "yes")
  ELSE IF t.k = "end" THEN
       (IF t.n = <<>> \/ m.stk = <<>> THEN "no"
        ELSE LET e == Top(m) IN
             IF e.n = <<>> \/ e.n # Bare(t.n) \/ e.s # t.s THEN "no"
             ELSE IF Pre(t.n) \in {<<>>, e.p} THEN "yes" ELSE "any")
  ELSE IF t.k \in {"text", "flush", "begin"} THEN "yes"
  ELSE IF t.k = "finish" THEN (IF m.stk # <<>> /\ Top(m) = Frame THEN "yes" ELSE "no")
  ELSE IF t.k = "pi" /\ t.n = kXml /\ m.w = "yes" THEN "no"
  ELSE IF t.k = "pi" /\ t.n = kXml /\ m.w = "empty" THEN "any"
  ELSE Writable(t)

Wrote(m, t) == IF m.w = "yes" \/ t.k \in {"begin", "finish", "flush"} THEN m.w
               ELSE IF t.k = "text" /\ t.t = <<>> THEN "empty" ELSE "yes"
Take(m, t) ==
  [stk |-> IF t.k = "start" THEN Append(m.stk, [s |-> t.s, n |-> Bare(t.n), p |-> Pre(t.n)])
           ELSE IF t.k = "begin" THEN Append(m.stk, Frame)
           ELSE IF t.k \in {"end", "finish"} THEN Sub(m.stk, 1, Len(m.stk) - 1)
           ELSE m.stk,
   out |-> IF t.k \in {"begin", "finish", "flush"} THEN m.out ELSE Append(m.out, t),
   w |-> Wrote(m, t), over |-> FALSE]
Turn(m, t, taken) == IF taken THEN Take(m, t) ELSE [m EXCEPT !.over = (t.k = "finish")]
Unclosed(m) == m.stk # <<>>
OpenTags(m) == \E j \in DOMAIN m.stk : m.stk[j] # Frame

-----------------------------------------------------------------------------
(* what a reader has to find: the tokens taken against the tokens read, with *)
(* their names in namespaces (y) and as they are written (w)                 *)
Decl(a) == a.s = uXmlns \/ (a.s = <<>> /\ a.n = kXmlns)
Plain(as) == SelectSeq(as, LAMBDA a : ~Decl(a) /\ a.n # <<>>)
Decls(as) == {[s |-> as[j].s, n |-> as[j].n, v |-> San(as[j].v)] : j \in {i \in DOMAIN as : Decl(as[i])}}
SameAttr(g, y) == y.s = San(g.s) /\ y.n = Bare(g.n) /\ Kept(g.v, y.v)
StartOk(t, y, w) ==
  /\ y.n = Bare(t.n)
  /\ IF t.s # <<>> THEN y.s = San(t.s) ELSE w.s = <<>>         \* no namespace: that of the elements around
  /\ LET g == Plain(t.a)
         h == Plain(y.a) IN
     /\ Len(g) = Len(h)
     /\ \A j \in DOMAIN g : SameAttr(g[j], h[j])
  /\ Decls(t.a) \subseteq Decls(y.a)
  /\ \A d \in Decls(y.a) : d.s = <<>> => (d \in Decls(t.a) \/ (t.s # <<>> /\ d.v = San(t.s)))
Same(t, y, w) ==
  /\ t.k = y.k
  /\ CASE t.k = "start" -> StartOk(t, y, w)
       [] t.k = "end" -> y.n = Bare(t.n)
       [] t.k = "text" -> Kept(t.t, y.t)
       [] t.k = "dir" /\ Hidden(t.t) -> y.t = Parse(Render(AsXml(t)), Strict).toks[1].t   \* a space for the comment
       [] OTHER -> y.n = t.n /\ y.t = t.t

(* text between the other tokens; gap j comes before token j                 *)
Hard(toks) == SelectSeq(toks, LAMBDA t : t.k # "text")
RECURSIVE Gaps(_, _, _)
Gaps(toks, j, acc) == IF j > Len(toks) THEN <<acc>>
                      ELSE IF toks[j].k = "text" THEN Gaps(toks, j + 1, acc \o toks[j].t)
                      ELSE <<acc>> \o Gaps(toks, j + 1, <<>>)
White(x) == \A j \in DOMAIN x : IsS(x[j])
Padded(g, h) == IF g = <<>> THEN White(h)
                ELSE \E i \in 1..Len(h) - Len(g) + 1 : /\ White(Sub(h, 1, i - 1)) /\ White(Sub(h, i + Len(g), Len(h)))
                                                        /\ Kept(g, Sub(h, i, i + Len(g) - 1))
RECURSIVE Depth(_, _)
Depth(toks, j) == IF j = 0 THEN 0
                  ELSE Depth(toks, j - 1) + (IF toks[j].k = "start" THEN 1 ELSE IF toks[j].k = "end" THEN -1 ELSE 0)
RECURSIVE Times(_, _)
Times(x, j) == IF j = 0 THEN <<>> ELSE x \o Times(x, j - 1)
Ends(x, z) == Len(x) >= Len(z) /\ Sub(x, Len(x) - Len(z) + 1, Len(x)) = z
(* elements begin on a line of their own, except for the first               *)
OnLine(hard, gaps, ind) ==
  \A j \in DOMAIN hard : hard[j].k = "start" =>
    LET pad == ind.prefix \o Times(ind.indent, Depth(hard, j - 1)) IN
    IF \A i \in 1..j - 1 : hard[i].k \notin {"start", "end"} THEN Ends(gaps[j], pad) ELSE Ends(gaps[j], <<10>> \o pad)

(* the output of an encoder that took toks: "ok" or what is wrong with it    *)
Indented(ind) == ind.prefix # <<>> \/ ind.indent # <<>>
Reading(toks, open, ind, out) ==
  LET P == Parse(out, Strict)
      Y == Resolved(P.toks, <<>>)
      RW == RawOf(P.toks)
      X == Hard(toks)
      HY == Hard(Y)
      HW == Hard(RW)
      GX == Gaps(toks, 1, <<>>)
      GY == Gaps(Y, 1, <<>>) IN
  IF P.any THEN "unusual markup"
  ELSE IF P.err # (IF open THEN "elements left open" ELSE "") THEN "the output is not well formed: " \o P.err
  ELSE IF Len(X) # Len(HY) THEN "tokens are missing or added"
  ELSE IF \E j \in DOMAIN X : ~Same(X[j], HY[j], HW[j]) THEN
       LET j == CHOOSE j \in DOMAIN X : ~Same(X[j], HY[j], HW[j]) IN "another token is read: " \o X[j].k
  ELSE IF ~Indented(ind) /\ \E j \in DOMAIN GX : ~Kept(GX[j], GY[j]) THEN "another text is read"
  ELSE IF \E j \in DOMAIN GX : ~Padded(GX[j], GY[j]) THEN "indentation adds more than white space"
  ELSE IF \E j \in 2..Len(X) : X[j - 1].k = "start" /\ X[j].k = "end" /\ ~Kept(GX[j], GY[j]) THEN "indentation changes the text of an element"
  ELSE IF Indented(ind) /\ ~OnLine(X, GY, ind) THEN "an element is not on its line"
  ELSE "ok"

(* a record of a session: tokens given, those taken, and what came of it     *)
RECURSIVE Session(_, _, _)
Session(r, j, m) ==                                        \* the machine after the session, or where it differs
  IF j > Len(r.toks) THEN [bad |-> "", m |-> m]
  ELSE LET t == r.toks[j]
           x == Takes(m, t) IN
       IF x = "yes" /\ ~r.acc[j] THEN [bad |-> "refused: " \o t.k, m |-> m]
       ELSE IF x = "no" /\ r.acc[j] THEN [bad |-> "accepted: " \o t.k, m |-> m]
       ELSE Session(r, j + 1, Turn(m, t, r.acc[j]))
(* tokens of which it is left open how they are read                         *)
Murk(m) == \E j \in DOMAIN m.out : m.out[j].k \in {"comment", "pi", "dir"} /\ Writable(m.out[j]) # "yes"
EncVerdict(r) ==
  LET S == Session(r, 1, Fresh) IN
  IF r.pan # "" THEN "panic: " \o r.pan
  ELSE IF S.bad # "" THEN S.bad
  ELSE IF r.close # Unclosed(S.m) THEN (IF r.close THEN "Close reports an error" ELSE "Close does not report open elements")
  ELSE IF r.late THEN "a token is taken after Close"
  ELSE IF Murk(S.m) THEN "ok"
  ELSE Reading(S.m.out, OpenTags(S.m), r.ind, r.out)
=============================================================================
