------------------------------- MODULE TextMC -------------------------------
(* Mode 1: every string over the letters that matter, with what has to come  *)
(* back.  Mode 2: every sequence of pieces of spelled text, with what it     *)
(* denotes in text and in attribute values.                                  *)
EXTENDS Text, TLC, Json
CONSTANTS Mode, MaxLen, NL

Letters == <<93, 62, 38, 13, 10, 60, 97, 34, 39, 9, 32, 0, 65534, 65533, 1114111, 1114112 + 226, 233, 59, 35, 1114112 + 128, 31, 133, 8232, 128512>>
Pieces == <<
  <<97>>, <<13>>, <<10>>, <<13, 10>>, <<38, 108, 116, 59>>, <<93, 93>>, <<62>>,
  <<60, 33, 91, 67, 68, 65, 84, 65, 91, 60, 38, 93, 93, 62>>,          \* <![CDATA[<&]]>
  <<60, 33, 45, 45, 99, 45, 62, 45, 45, 62>>,                          \* <!--c->-->
  <<38, 35, 49, 51, 59>>, <<38, 35, 49, 48, 59>>, <<9>>, <<34>>, <<39>>,
  <<60, 33, 91, 67, 68, 65, 84, 65, 91, 13, 10, 13, 93, 93, 62>>,      \* CDATA with line ends
  <<60, 63, 112, 32, 100, 63, 62>>,                                    \* <?p d?>
  <<32>>, <<38, 97, 109, 112, 59>>, <<38, 103, 116, 59>>, <<38, 113, 117, 111, 116, 59>>, <<38, 97, 112, 111, 115, 59>>,
  <<38, 35, 120, 49, 48, 70, 70, 70, 70, 59>>, <<233>>, <<38, 35, 120, 57, 59>>, <<38>>, <<59>>, <<108, 116>>, <<35>>, <<38, 35, 48, 48, 54, 53, 59>> >>

VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E j \in 1..NL : s' = Append(s, IF Mode = 1 THEN Letters[j] ELSE j)
Spec == Init /\ [][Next]_s

(* mode 1 *)
v == San(s)
Laws1 == /\ San(v) = v
         /\ ~Torn(v)
         /\ TextOf(Esc(v, FALSE)).ok /\ TextOf(Esc(v, FALSE)).v = v
         /\ TextOf(EscCD(v)).ok /\ TextOf(EscCD(v)).v = v
         /\ AttrOf(Esc(v, TRUE), 34).ok /\ AttrOf(Esc(v, TRUE), 34).v = v
         /\ Kept(s, v)
         /\ \A j \in DOMAIN s : ~Kept(s, Sub(v, 1, j - 1) \o <<120>> \o Sub(v, j + 1, Len(v)))
         /\ ~Kept(s, v \o <<97>>) /\ (Len(v) > 1 /\ ~Torn(s) => ~Kept(s, Tail(v)))
Export1 == PrintT("##" \o ToJson([s |-> s, v |-> v]))

(* mode 2 *)
w == Concat([j \in DOMAIN s |-> Pieces[s[j]]], 1)
T == TextOf(w)
A2 == AttrOf(w, 34)
A1 == AttrOf(w, 39)
Want(x) == [want |-> IF x.ok THEN "accept" ELSE IF x.any THEN "free" ELSE "refuse", v |-> x.v]
Laws2 == /\ T.ok => \A j \in DOMAIN T.v : IsChar(T.v[j])
         /\ A2.ok => T.ok \/ \E j \in 1..Len(w) - 2 : Here(w, j, cdClose)      \* but for ]]>, attributes allow less
         /\ A2.ok /\ A1.ok => A2.v = A1.v
         /\ A2.ok /\ T.ok => Len(A2.v) = Len(T.v)
Export2 == PrintT("##" \o ToJson([s |-> w, text |-> Want(T), quot |-> Want(A2), apos |-> Want(A1)]))
=============================================================================
