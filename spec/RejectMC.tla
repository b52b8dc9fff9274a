------------------------------ MODULE RejectMC ------------------------------
(* Every text made of up to MaxF of the first NF fragments: whether a        *)
(* document has to be accepted or refused, exported to be read by the        *)
(* library through all its entry points.                                     *)
EXTENDS Reject, Json
CONSTANTS MaxF, NF

Frags == <<
  <<60, 77, 80, 68, 62>>,  \* <MPD>
  <<60, 47, 77, 80, 68, 62>>,  \* </MPD>
  <<60, 77, 80, 68, 47, 62>>,  \* <MPD/>
  <<60, 80, 101, 114, 105, 111, 100, 62>>,  \* <Period>
  <<60, 47, 80, 101, 114, 105, 111, 100, 62>>,  \* </Period>
  <<60, 80, 101, 114, 105, 111, 100, 32, 105, 100, 61, 34, 49, 34, 47, 62>>,  \* <Period id="1"/>
  <<32>>,  \*  
  <<120>>,  \* x
  <<60, 33, 45, 45, 99, 45, 45, 62>>,  \* <!--c-->
  <<60, 63, 112, 32, 113, 63, 62>>,  \* <?p q?>
  <<60, 33, 68, 79, 67, 84, 89, 80, 69, 32, 77, 80, 68, 62>>,  \* <!DOCTYPE MPD>
  <<65279>>,  \* \ufeff
  <<38, 97, 109, 112, 59>>,  \* &amp;
  <<60, 63, 120, 109, 108, 32, 118, 101, 114, 115, 105, 111, 110, 61, 34, 49, 46, 48, 34, 63, 62>>,  \* <?xml version="1.0"?>
  <<60, 77, 80, 68, 32, 116, 121, 112, 101, 61, 34, 115, 116, 97, 116, 105, 99, 34>>,  \* <MPD type="static"
  <<32, 109, 105, 110, 66, 117, 102, 102, 101, 114, 84, 105, 109, 101, 61, 34, 80, 84, 49, 83, 34, 62>>,  \*  minBufferTime="PT1S">
  <<47, 62>>,  \* />
  <<38, 110, 111, 59>>,  \* &no;
  <<60, 33, 91, 67, 68, 65, 84, 65, 91, 32, 93, 93, 62>>,  \* <![CDATA[ ]]>
  <<60, 112, 58, 77, 80, 68, 32, 120, 109, 108, 110, 115, 58, 112, 61, 34, 117, 114, 110, 58, 109, 112, 101, 103, 58, 100, 97, 115, 104, 58, 115, 99, 104, 101, 109, 97, 58, 109, 112, 100, 58, 50, 48, 49, 49, 34, 62>>,  \* <p:MPD xmlns:p="urn:mpeg:dash:schema:mpd:2011">
  <<60, 47, 112, 58, 77, 80, 68, 62>>,  \* </p:MPD>
  <<60, 66, 97, 115, 101, 85, 82, 76, 62>>,  \* <BaseURL>
  <<60, 47, 66, 97, 115, 101, 85, 82, 76, 62>>,  \* </BaseURL>
  <<60>>,  \* <
  <<1>>  \* \x01
>>

VARIABLES s, n
vars == <<s, n>>
Init == s = <<>> /\ n = 0
Next == /\ n < MaxF
        /\ \E x \in 1..NF : s' = s \o Frags[x]
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars

C == Class(s)
Laws == /\ C.want \in {"accept", "refuse", "free"}
        (* a document that is cut off before the end of its root is refused  *)
        /\ C.want = "accept" => \A k \in 0..(C.end - 1) : Class(Sub1(s, k)).want = "refuse"
        (* comments, instructions and white space after the root are fine    *)
        /\ C.want = "accept" => Class(s \o <<10>>).want = "accept" /\ Class(s \o <<60, 33, 45, 45, 45, 45, 62>>).want = "accept"
        (* anything else is not                                              *)
        /\ C.want = "accept" => \A t \in {<<120>>, <<60, 77, 80, 68, 47, 62>>, <<60>>, <<0>>, <<38, 97, 109, 112, 59>>} : Class(s \o t).want = "refuse"
RECURSIVE WFlat(_)
WFlat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o WFlat(Tail(q))
Wide(q, c, k) == WFlat([j \in DOMAIN q |-> IF q[j] = c THEN [x \in 1..k |-> c] ELSE <<q[j]>>])
(* the law that carries verdicts on small texts over to large ones: it does  *)
(* not matter how many times a letter of a comment, an instruction or a      *)
(* value is written                                                          *)
Uniform == \A c \in {99, 113} : (\E j \in DOMAIN s : s[j] = c) => Class(Wide(s, c, 2)).want = C.want
Export == PrintT("##" \o ToJson([s |-> s, want |-> C.want, why |-> C.why]))
=============================================================================
