------------------------------ MODULE SinkTrace ------------------------------
(* Writes recorded from the library, judged by the contract of Sink.tla.     *)
(* r.calls[j] = [len, a, e, pre]: pre says whether the chunk is what follows *)
(* the bytes accepted so far; r.total is the size of the document, -1 when   *)
(* the value cannot be written at all; r.same: Write and WriteToString agree *)
EXTENDS RecCheck, FiniteSets

Failed(c) == c.a < c.len \/ c.e # ""
RECURSIVE SumA(_, _)
SumA(cs, j) == IF j = 0 THEN 0 ELSE cs[j].a + SumA(cs, j - 1)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

SinkVerdict(r) ==
  LET bad == {j \in DOMAIN r.calls : Failed(r.calls[j])}
      acc == SumA(r.calls, Len(r.calls)) IN
  IF r.pan # "" THEN "panic: " \o r.pan
  ELSE IF r.n # -1 /\ r.n # acc THEN "the count is not what the sink accepted"
  ELSE IF r.total >= 0 /\ \E j \in DOMAIN r.calls : r.calls[j].a > 0 /\ ~r.calls[j].pre THEN "not a prefix of the document"
  ELSE IF bad = {} THEN
    (IF r.total < 0 THEN (IF r.err = "" THEN "a value that cannot be written is written" ELSE "ok")
     ELSE IF r.err # "" THEN "an error although the sink accepted everything"
     ELSE IF acc # r.total THEN "the document is incomplete and there is no error"
     ELSE IF ~r.same THEN "Write and WriteToString differ"
     ELSE "ok")
  ELSE IF r.err = "" THEN "the failure of the sink is not reported"
  ELSE IF r.total >= 0 /\ r.calls[Min(bad)].e # "" /\ r.err # r.calls[Min(bad)].e THEN "another error than the sink's"
  ELSE IF r.later # "" THEN r.later
  ELSE "ok"
=============================================================================
