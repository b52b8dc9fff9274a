-------------------------------- MODULE Heap --------------------------------
(* Why a clone that shares no memory with the original is independent of it, *)
(* whatever is done to either: cells hold a value and references; one program*)
(* changes what it can reach from the original, another what it can reach    *)
(* from the clone.  CloneTrace.tla checks, on the memory of real clones, the *)
(* premise Apart.                                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NCells, Shared        \* Shared: also start from clones that share

Cells == 1..NCells
VARIABLES val, ref, root, free
vars == <<val, ref, root, free>>

RECURSIVE Reach(_, _, _)
Reach(r, S, x) == IF x = 0 \/ x \in S THEN S ELSE Reach(r, S \cup {x}, r[x])
Of(r, side) == Reach(r, {}, root[side])
(* what a side sees: the values along its chain                              *)
RECURSIVE See(_, _, _, _)
See(v, r, x, n) == IF x = 0 \/ n = 0 THEN <<>> ELSE <<v[x]>> \o See(v, r, r[x], n - 1)
View(v, r, side) == See(v, r, root[side], NCells)

Apart == Of(ref, "o") \cap Of(ref, "c") = {}
Equal == View(val, ref, "o") = View(val, ref, "c")

Init == /\ val \in [Cells -> 0..1] /\ ref \in [Cells -> {0} \cup Cells]
        /\ \A x \in Cells : ref[x] = 0 \/ ref[x] > x       \* chains end
        /\ root \in [{"o", "c"} -> Cells]
        /\ Equal /\ (Apart \/ Shared)
        /\ free = Cells \ (Of(ref, "o") \cup Of(ref, "c"))
Mutate(side) ==
  \E x \in Of(ref, side) :
    \/ val' = [val EXCEPT ![x] = 1 - val[x]] /\ UNCHANGED <<ref, root, free>>
    \/ ref' = [ref EXCEPT ![x] = 0] /\ UNCHANGED <<val, root, free>>
    \/ \E y \in free : ref' = [ref EXCEPT ![x] = y, ![y] = 0] /\ free' = free \ {y} /\ UNCHANGED <<val, root>>
Next == Mutate("o") \/ Mutate("c")
Spec == Init /\ [][Next]_vars

StaysApart == Apart
(* whoever changes something leaves the other's view as it was               *)
Independent == [][/\ Mutate("o") /\ ~Mutate("c") => View(val', ref', "c") = View(val, ref, "c")
                  /\ Mutate("c") /\ ~Mutate("o") => View(val', ref', "o") = View(val, ref, "o")]_vars
OneSees == [][View(val', ref', "c") = View(val, ref, "c") \/ View(val', ref', "o") = View(val, ref, "o")]_vars
=============================================================================
