------------------------------ MODULE ShapesMC ------------------------------
(* All shapes with up to Max things around a value; all are replayed.        *)
EXTENDS Shapes, TLC, Json
CONSTANTS Max
VARIABLES ws, k, pos
vars == <<ws, k, pos>>
Around == {[w |-> w, n |-> n] : w \in {"ptr", "iface"}, n \in {0, 1}} \cup {[w |-> "slice", n |-> n] : n \in 0..2} \cup {[w |-> "array", n |-> 2]}
Init == ws = <<>> /\ k \in Kinds /\ pos \in Fields \cup {"root", "rootp", "start", "attr", "chardata"}
(* what has the methods: the value, or a pointer to it                       *)
Method(w) == \/ ws = <<>> /\ k \in (IF w = "tmi" THEN {"tm", "tb"} ELSE {"mx", "mb"})
             \/ ws = <<[w |-> "ptr", n |-> 1]>> /\ k \in (IF w = "tmi" THEN {"tm", "tp", "tb"} ELSE {"mx", "mp", "mb"})
With == {[w |-> w, n |-> n] : w \in {x \in {"tmi", "mxi"} : Method(x)}, n \in {0, 1}}
Next == Len(ws) < Max /\ \E a \in Around \cup With : ws' = <<a>> \o ws /\ UNCHANGED <<k, pos>>
Spec == Init /\ [][Next]_vars

Text == IF k = "int" THEN <<55>> ELSE IF k = "float64" THEN <<49, 46, 53>> ELSE IF k = "bool" THEN <<>> ELSE <<97, 38>>
E(w) == Elements(w, k, Text, pos)
RECURSIVE Product(_)
Product(w) == IF w = <<>> THEN 1 ELSE w[1].n * Product(Tail(w))
(* a pointer or an interface counts for nothing, a slice for its values      *)
Laws ==
  /\ Len(E(ws)) = Product(ws)
  /\ E(<<[w |-> "ptr", n |-> 1]>> \o ws) = E(ws)
  /\ E(<<[w |-> "iface", n |-> 1]>> \o ws) = E(ws)
  /\ E(<<[w |-> "ptr", n |-> 0]>> \o ws) = <<>> /\ E(<<[w |-> "slice", n |-> 0]>> \o ws) = <<>>
  /\ E(<<[w |-> "slice", n |-> 2]>> \o ws) = Elements(ws, k, Append(Text, 49), pos) \o Elements(ws, k, Append(Text, 50), pos)
  /\ \A i, j \in DOMAIN E(ws) : i # j => (k = "abytes" \/ E(ws)[i].c # E(ws)[j].c) /\ E(ws)[i].n = E(ws)[j].n
  /\ \A i \in DOMAIN E(ws) : E(ws)[i].n = "" => Fails(ws, k, pos)
  /\ Fails(ws, k, pos) => ~Fails(<<[w |-> "ptr", n |-> 0]>> \o ws, k, pos)
Export == PrintT("##" \o ToJson([ws |-> ws, k |-> k, pos |-> pos, c |-> Text]))
=============================================================================
