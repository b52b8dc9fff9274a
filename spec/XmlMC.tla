------------------------------- MODULE XmlMC -------------------------------
(* Every text made of up to MaxF fragments out of the first NF, read by the  *)
(* reader of Xml.tla: the specification itself is sane, and every text is    *)
(* exported with the tokens it stands for, to be given to the real decoder.  *)
EXTENDS Xml, TLC, Json
CONSTANTS MaxF, NF, From

Frags == <<
  <<60, 97, 62>>,  \* <a>
  <<60, 47, 97, 62>>,  \* </a>
  <<60, 98, 47, 62>>,  \* <b/>
  <<60, 97, 32, 120, 109, 108, 110, 115, 61, 34, 117, 34, 62>>,  \* <a xmlns="u">
  <<60, 112, 58, 97, 32, 120, 109, 108, 110, 115, 58, 112, 61, 34, 118, 34, 62>>,  \* <p:a xmlns:p="v">
  <<60, 47, 112, 58, 97, 62>>,  \* </p:a>
  <<60, 97, 32, 120, 61, 39, 49, 39, 32, 112, 58, 121, 61, 34, 50, 34, 62>>,  \* <a x='1' p:y="2">
  <<32>>,  \*  
  <<116>>,  \* t
  <<38, 108, 116, 59>>,  \* &lt;
  <<38, 35, 54, 53, 59>>,  \* &#65;
  <<38, 98, 97, 100, 59>>,  \* &bad;
  <<93, 93, 62>>,  \* ]]>
  <<60, 33, 91, 67, 68, 65, 84, 65, 91>>,  \* <![CDATA[
  <<93, 93>>,  \* ]]
  <<62>>,  \* >
  <<60, 33, 45, 45>>,  \* <!--
  <<45, 45, 62>>,  \* -->
  <<45, 45>>,  \* --
  <<60, 63, 113, 32>>,  \* <?q 
  <<63, 62>>,  \* ?>
  <<60, 33, 68, 62>>,  \* <!D>
  <<13>>,  \* \r
  <<10>>,  \* \n
  <<34>>,  \* "
  <<60>>,  \* <
  <<47, 62>>,  \* />
  <<61>>,  \* =
  <<60, 97, 32>>,  \* <a 
  <<120, 61, 34>>,  \* x="
  <<38>>,  \* &
  <<38, 35, 120, 68, 56, 48, 48, 59>>,  \* &#xD800;
  <<59>>,  \* ;
  <<60, 63, 120, 109, 108, 32, 118, 101, 114, 115, 105, 111, 110, 61, 34, 49, 46, 48, 34, 63, 62>>,  \* <?xml version="1.0"?>
  <<60, 33, 68, 32, 34>>,  \* <!D "
  <<60, 112, 58, 98, 62>>,  \* <p:b>
  <<60, 47, 112, 58, 98, 62>>,  \* </p:b>
  <<120, 61, 39, 49, 39>>,  \* x='1'
  <<9>>,  \* \t
  <<1>>,  \* \x01
  <<233>>,  \* \xe9
  <<45>>,  \* -
  <<120, 109, 108, 110, 115, 58, 112, 61, 34, 34>>,  \* xmlns:p=""
  <<60, 97, 32, 120, 61, 34, 49, 34, 120, 61, 34, 50, 34, 62>>,  \* <a x="1"x="2">
  <<38, 101, 110, 116, 59>>,  \* &ent;
  <<60, 33, 68, 32, 91, 60, 33, 69, 62, 93, 62>>  \* <!D [<!E>]>
>>
Bad == 1114112 + 255           \* a byte that is not UTF-8
O == [ents |-> <<[n |-> <<101, 110, 116>>, v |-> <<91, 60, 93>>]>>, lax |-> FALSE]

VARIABLES s, p, n, before
vars == <<s, p, n, before>>
Init == s = <<>> /\ n = 0 /\ p = Parse(s, O) /\ before = p
Next == /\ n < MaxF
        /\ \E f \in {Frags[x] : x \in From..NF} \cup (IF NF = Len(Frags) THEN {<<Bad>>} ELSE {}) : s' = s \o f
        /\ n' = n + 1
        /\ p' = Parse(s', O)
        /\ before' = p
Spec == Init /\ [][Next]_vars

R == Resolved(p.toks, <<>>)
L == Parse(s, [O EXCEPT !.lax = TRUE])        \* read by a decoder that is not strict
Balanced == Nested(R) /\ (p.err = "" /\ ~p.any => Open(R, 1, <<>>) = <<>>)
Forward == /\ p.fin
           /\ \A j \in 1..(Len(p.toks) - 1) : p.toks[j].e <= p.toks[j + 1].e
           /\ \A j \in DOMAIN p.toks : p.toks[j].e <= Len(s)
           /\ p.err = "" /\ ~p.any => p.i = Len(s) + 1
(* what has been read does not depend on what comes later                    *)
Sure(toks) == IF toks # <<>> /\ toks[Len(toks)].k = "text" THEN Sub(toks, 1, Len(toks) - 1) ELSE toks
Streamed == before.any \/ LET q == Sure(before.toks) IN Len(q) <= Len(p.toks) /\ Sub(p.toks, 1, Len(q)) = q

(* a text written from the tokens stands for the same tokens                 *)
NoE(toks) == [j \in DOMAIN toks |-> [toks[j] EXCEPT !.e = 0]]
Again == LET q == Parse(RenderAll(p.toks), Strict)
             closed == p.err = "" IN
         p.any \/ (/\ (closed => q.err = "" /\ ~q.any)
                  /\ NoE(Normal(RawOf(q.toks))) = NoE(Normal(RawOf(p.toks))))

(* on well-formed text strictness makes no difference; otherwise the tags    *)
(* delivered are nested, too                                                 *)
Lenient == /\ p.err = "" => L = p
           /\ Nested(Resolved(L.toks, <<>>))
           /\ LET q == Sure(p.toks) IN Len(q) <= Len(L.toks) /\ Sub(L.toks, 1, Len(q)) = q

(* a letter that occurs in no keyword counts for nothing but itself: written *)
(* k times wherever it occurs, it is there k times in every token            *)
RECURSIVE Wide(_, _, _)
Wide(q, c, k) == IF q = <<>> THEN <<>>
                 ELSE (IF q[1] = c THEN [j \in 1..k |-> c] ELSE <<q[1]>>) \o Wide(Tail(q), c, k)
WideTok(t, c, k) == [t EXCEPT !.p = Wide(@, c, k), !.n = Wide(@, c, k), !.t = Wide(@, c, k),
                     !.e = t.e + (k - 1) * Cardinality({j \in 1..t.e : s[j] = c}),
                     !.a = [x \in DOMAIN t.a |-> [t.a[x] EXCEPT !.p = Wide(@, c, k), !.n = Wide(@, c, k), !.v = Wide(@, c, k)]]]
Uniform == \A c \in {98, 112, 121} :
             (\E j \in DOMAIN s : s[j] = c) =>
               LET q == Parse(Wide(s, c, 2), O) IN
               q.err = p.err /\ q.any = p.any /\ (~p.any => q.toks = [j \in DOMAIN p.toks |-> WideTok(p.toks[j], c, 2)])

Export == PrintT("##" \o ToJson([s |-> s, err |-> p.err, any |-> p.any, toks |-> Normal(R),
                                  lerr |-> L.err, lany |-> L.any, lax |-> IF p.err = "" THEN <<>> ELSE Normal(Resolved(L.toks, <<>>))]))
=============================================================================
