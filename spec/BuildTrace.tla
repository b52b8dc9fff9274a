------------------------------ MODULE BuildTrace ------------------------------
(* Sessions of building operations (r.ops) with the document that was        *)
(* written at the end (r.out, as the referee reads it) and the timescales    *)
(* that were answered (r.ts: Seq of [at: number of operations, x, c]).       *)
EXTENDS Build, RecCheck

Wrong(r) ==
  LET h == Run(<<>>, r.ops, 1) IN
  IF r.pan # "" THEN "panic: " \o r.pan
  ELSE IF r.err # "" THEN "not written: " \o r.err
  ELSE IF r.wf # "" THEN "not well formed: " \o r.wf
  ELSE IF \E j \in DOMAIN r.ts : Timescale(Run(<<>>, SubSeq(r.ops, 1, r.ts[j].at), 1), r.ts[j].x) # r.ts[j].c THEN "another timescale is answered"
  ELSE Diff("MPD", Node(h, 1, "MPD"), r.out, "")
(* durations made from seconds: r.s are the codes of a decimal numeral, r.ns *)
(* those of the nanoseconds of the duration, exact to the microsecond.       *)
(* A numeral says neg, digits before and after the point.                    *)
Body(c) == IF c # <<>> /\ c[1] = 45 THEN Tail(c) ELSE c
PointAt(c) == LET J == {j \in DOMAIN c : c[j] = 46} IN IF J = {} THEN Len(c) + 1 ELSE CHOOSE j \in J : TRUE
NanosOf(c) == LET b == Body(c)
                  j == PointAt(b)
                  f == SubSeq(b, j + 1, Len(b))
                  z == [i \in 1..9 - Len(f) |-> 48] IN
              FromDigits(ToDigs(SubSeq(b, 1, j - 1) \o f \o z))
SecVerdict(r) ==
  IF r.pan # "" THEN "panic: " \o r.pan
  ELSE LET want == NanosOf(r.s)
           got == FromDigits(ToDigs(Body(r.ns)))
           half == IF r.whole THEN <<>> ELSE BNat(500) IN
       IF want # <<>> /\ got # <<>> /\ (r.s[1] = 45) # (r.ns[1] = 45) THEN "sign"
       ELSE IF BCmp(BDist(want, got), half) > 0 THEN "another duration" ELSE "ok"
BuildVerdict(r) == LET x == Wrong(r) IN IF x = "" THEN "ok" ELSE x
=============================================================================
