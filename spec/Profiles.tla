------------------------------ MODULE Profiles ------------------------------
(* Comma-separated lists of profiles: every list and every profile over a    *)
(* small alphabet, with the list that adding has to give.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxL, MaxP

Comma == 44
Letters == {Comma, 97, 98, 32}
RECURSIVE Split(_, _)
Split(l, cur) == IF l = <<>> THEN <<cur>> ELSE IF l[1] = Comma THEN <<cur>> \o Split(Tail(l), <<>>) ELSE Split(Tail(l), Append(cur, l[1]))
Items(l) == IF l = <<>> THEN <<>> ELSE Split(l, <<>>)
Bag(s) == {s[j] : j \in DOMAIN s}
RECURSIVE Bare(_)
Bare(p) == IF p # <<>> /\ p[1] = 32 THEN Bare(Tail(p)) ELSE IF p # <<>> /\ p[Len(p)] = 32 THEN Bare(SubSeq(p, 1, Len(p) - 1)) ELSE p
Add(l, p) == IF l = <<>> THEN p ELSE IF p \in Bag(Items(l)) THEN l ELSE l \o <<Comma>> \o p
(* lists with spaces around their items, or with empty items, are not lists  *)
(* of profiles; whether they contain a profile is left open when that        *)
(* depends on how they are cleaned up                                        *)
Open(l, p) == p \notin Bag(Items(l)) /\ (\E i \in Bag(Items(l)) : Bare(i) = Bare(p) \/ Bare(i) = <<>>)

VARIABLES l, p
Init == l = <<>> /\ p = <<>>
Next == \/ Len(l) < MaxL /\ p = <<>> /\ \E c \in Letters : l' = Append(l, c) /\ p' = p
        \/ Len(p) < MaxP /\ \E c \in Letters \ {Comma} : p' = Append(p, c) /\ l' = l
Spec == Init /\ [][Next]_<<l, p>>
Sane == p # <<>> /\ Bare(p) = p
Laws == Sane =>
  LET r == Add(l, p) IN
  /\ p \in Bag(Items(r)) /\ Add(r, p) = r
  /\ SubSeq(Items(r), 1, Len(Items(l))) = Items(l)
  /\ Len(Items(r)) = Len(Items(l)) + (IF p \in Bag(Items(l)) THEN 0 ELSE 1)
Export == Sane => PrintT("##" \o ToJson([l |-> l, p |-> p, r |-> IF Open(l, p) THEN {l, l \o <<Comma>> \o p} ELSE {Add(l, p)}]))
=============================================================================
