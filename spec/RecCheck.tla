------------------------------ MODULE RecCheck ------------------------------
(* Trace checker for executions recorded from the real library.            *)
(*                                                                         *)
(* The harness writes one JSON record per observed call (or per observed   *)
(* session); Verdict(r) says whether the specification explains record r:  *)
(* "ok", or a string that names what the specification forbids.            *)
(* W independent chains walk through the file so that TLC's workers share  *)
(* the work; every judged record is one state, so the number of distinct   *)
(* states TLC reports, minus the W initial states, is the number of records*)
(* that were really judged (check.py insists on it).                       *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
CONSTANT Verdict(_)

Recs == ndJsonDeserialize(IOEnv.VV_TRACE)
NRecs == Len(Recs)
W == 32

VARIABLES k, v
vars == <<k, v>>

Report(i, x) == IF x = "ok" THEN TRUE ELSE PrintT("@@ " \o ToString(i) \o " " \o x)

Init == k \in (1 - W)..0 /\ v = "start"
Next == /\ k + W <= NRecs
        /\ k' = k + W
        /\ v' = Verdict(Recs[k + W])
        /\ Report(k + W, v')
Spec == Init /\ [][Next]_vars
=============================================================================
