------------------------------ MODULE SinkPlan ------------------------------
(* Every way a sink can react to up to MaxCalls calls: how much of a chunk it*)
(* accepts and whether it reports an error (afterwards it works again).      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxCalls
Reactions == {[a |-> x, e |-> y] : x \in {"none", "one", "half", "butone", "all"}, y \in {"", "E1"}}
VARIABLE plan
Init == plan = <<>>
Next == Len(plan) < MaxCalls /\ \E x \in Reactions : plan' = Append(plan, x)
Spec == Init /\ [][Next]_plan
Export == PrintT("##" \o ToJson([plan |-> plan]))
=============================================================================
