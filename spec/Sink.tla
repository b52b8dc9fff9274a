-------------------------------- MODULE Sink --------------------------------
(* Writing a document of N bytes to a sink that may fail.  The writer offers *)
(* chunks of the document in order; the sink accepts some bytes of a chunk   *)
(* and may report an error; after the first failure the writer stops and     *)
(* reports it, with the number of bytes that were accepted.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sizes, MaxCalls, Errors          \* Errors: names of errors; "" is none

VARIABLES N, acc, calls, ret
vars == <<N, acc, calls, ret>>
None == [n |-> -1, err |-> ""]

Failed(c) == c.a < c.len \/ c.e # ""
ErrOf(c) == IF c.e # "" THEN c.e ELSE "short"

Stopped == IF calls = <<>> THEN FALSE ELSE Failed(calls[Len(calls)])
Init == N \in Sizes /\ acc = 0 /\ calls = <<>> /\ ret = None
Offer(len, a, e) ==
  /\ ret = None /\ Len(calls) < MaxCalls
  /\ ~Stopped
  /\ len \in 1..(N - acc) /\ a \in 0..len
  /\ calls' = Append(calls, [len |-> len, a |-> a, e |-> e])
  /\ acc' = acc + a
  /\ UNCHANGED <<N, ret>>
Return ==
  /\ ret = None
  /\ Stopped \/ acc = N
  /\ ret' = [n |-> acc, err |-> IF Stopped THEN ErrOf(calls[Len(calls)]) ELSE ""]
  /\ UNCHANGED <<N, acc, calls>>
Next == (\E len \in 1..N, a \in 0..N, e \in Errors : Offer(len, a, e)) \/ Return
Spec == Init /\ [][Next]_vars

RECURSIVE SumA(_, _)
SumA(cs, j) == IF j = 0 THEN 0 ELSE cs[j].a + SumA(cs, j - 1)

(* what a caller can rely on when the write returns                          *)
Returned == ret # None
CountExact == Returned => ret.n = SumA(calls, Len(calls))
Complete == Returned => (ret.err = "" <=> (ret.n = N /\ \A j \in DOMAIN calls : ~Failed(calls[j])))
FirstError == Returned /\ ret.err # "" => \E j \in DOMAIN calls : Failed(calls[j]) /\ ErrOf(calls[j]) = ret.err /\ \A i \in 1..(j - 1) : ~Failed(calls[i])
=============================================================================
