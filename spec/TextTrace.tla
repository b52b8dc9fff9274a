----------------------------- MODULE TextTrace -----------------------------
(* Strings written and read again by the library, in many places.  Strings   *)
(* are recorded in runs [f, d, n]: n codes from f on, each d more than the   *)
(* one before.  r.in is the string, r.outs[j] what came back at a place;     *)
(* r.doc, when short enough to be given, is a document the library wrote     *)
(* with the string as attribute, as text and in a CDATA section.             *)
EXTENDS RecCheck, Text

RECURSIVE Expand(_, _)
Expand(runs, j) == IF j > Len(runs) THEN <<>>
                   ELSE [x \in 1..runs[j].n |-> runs[j].f + runs[j].d * (x - 1)] \o Expand(runs, j + 1)

(* <e a="..."><t>...</t><c>...</c></e>                                       *)
Written(d, s) ==
  LET st == Parse(d, Strict)
      tg == SelectSeq(Normal(RawOf(st.toks)), LAMBDA t : t.k # "comment")
      texts == Texts(st.toks, 1)
      el == [x \in 1..2 |-> LET at == {j \in DOMAIN st.toks : st.toks[j].k = "start" /\ st.toks[j].n = <<IF x = 1 THEN 116 ELSE 99>>}
                                j0 == CHOOSE j \in at : TRUE
                                j1 == CHOOSE j \in DOMAIN st.toks : j > j0 /\ st.toks[j].k = "end" /\ \A i \in j0..j : st.toks[i].k = "end" => i = j IN
                            IF Cardinality(at) # 1 THEN <<-1>> ELSE Texts(Sub(st.toks, j0, j1), 1)] IN
  IF st.any THEN "ok"
  ELSE IF st.err # "" THEN "the document written is not well formed: " \o st.err
  ELSE IF Len(Tags(st.toks)) # 6 \/ st.toks[1].k # "start" \/ Len(st.toks[1].a) # 1 THEN "the string changes the structure of the document"
  ELSE IF ~Kept(s, st.toks[1].a[1].v) THEN "the attribute written is another string"
  ELSE IF ~Kept(s, el[1]) THEN "the text written is another string"
  ELSE IF ~Kept(s, el[2]) THEN "the CDATA written is another string"
  ELSE "ok"

TextVerdict(r) ==
  LET s == Expand(r.in, 1)
      bad == {j \in DOMAIN r.outs : r.outs[j].err # "" \/ ~Kept(s, Expand(r.outs[j].got, 1))} IN
  IF r.pan # "" THEN "panic: " \o r.pan
  ELSE IF bad # {} THEN LET o == r.outs[CHOOSE j \in bad : \A i \in bad : j <= i] IN
                        (IF o.err # "" THEN o.err ELSE "another string comes back") \o " at " \o o.at
  ELSE IF r.doc # <<>> THEN Written(r.doc, s)
  ELSE "ok"
=============================================================================
