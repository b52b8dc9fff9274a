-------------------------------- MODULE Text --------------------------------
(* What becomes of a string that is written and read again: characters that  *)
(* XML has, stay; others, and bytes that are not UTF-8, become U+FFFD.       *)
EXTENDS Xml

Rep == 65533
San(s) == [j \in DOMAIN s |-> IF IsChar(s[j]) THEN s[j] ELSE Rep]
Torn(s) == \E j \in DOMAIN s : s[j] > 1114111
Merge(s) == LET P == [j \in DOMAIN s |-> <<s[j], j > 1 /\ s[j] = Rep /\ At(s, j - 1) = Rep>>]
                R == SelectSeq(P, LAMBDA p : ~p[2]) IN [j \in DOMAIN R |-> R[j][1]]
(* how many U+FFFD stand for a piece of torn UTF-8 is not fixed              *)
Kept(s, got) == got = San(s) \/ (Torn(s) /\ Merge(got) = Merge(San(s)))

(* one way to write text, attribute values and CDATA sections                *)
cdOpen == <<60, 33, 91, 67, 68, 65, 84, 65, 91>>
cdClose == <<93, 93, 62>>
EscCD(s) ==
  LET F == [j \in DOMAIN s |->
             IF s[j] = 13 THEN cdClose \o <<38, 35, 49, 51, 59>> \o cdOpen
             ELSE IF s[j] = 62 /\ At(s, j - 1) = 93 /\ At(s, j - 2) = 93 THEN cdClose \o cdOpen \o <<62>>
             ELSE <<s[j]>>] IN
  IF s = <<>> THEN <<>> ELSE cdOpen \o Concat(F, 1) \o cdClose

InText(w) == <<60, 101, 62>> \o w \o <<60, 47, 101, 62>>                \* <e>w</e>
InAttr(w, q) == <<60, 101, 32, 97, 61, q>> \o w \o <<q, 47, 62>>        \* <e a=qwq/>

(* the text of the only element, and whether the document is one element     *)
RECURSIVE Texts(_, _)
Texts(toks, j) == IF j > Len(toks) THEN <<>> ELSE (IF toks[j].k = "text" THEN toks[j].t ELSE <<>>) \o Texts(toks, j + 1)
Tags(toks) == SelectSeq(toks, LAMBDA t : t.k \in {"start", "end"})
One(st) == st.err = "" /\ ~st.any /\ Len(Tags(st.toks)) = 2
TextOf(w) == LET st == Parse(InText(w), Strict) IN [ok |-> One(st), any |-> st.any, v |-> Texts(st.toks, 1)]
AttrOf(w, q) == LET st == Parse(InAttr(w, q), Strict) IN
                IF One(st) /\ Len(st.toks[1].a) = 1 THEN [ok |-> TRUE, any |-> FALSE, v |-> st.toks[1].a[1].v]
                ELSE [ok |-> FALSE, any |-> st.any, v |-> <<>>]
=============================================================================
