#!/usr/bin/env python3
"""writes spec/RejectMC.tla (fragments spelled as code points)"""
import os
frags = ['<MPD>', '</MPD>', '<MPD/>', '<Period>', '</Period>', '<Period id="1"/>', ' ', 'x', '<!--c-->', '<?p q?>', '<!DOCTYPE MPD>', '\ufeff', '&amp;',
         '<?xml version="1.0"?>', '<MPD type="static"', ' minBufferTime="PT1S">', '/>', '&no;', '<![CDATA[ ]]>', '<p:MPD xmlns:p="urn:mpeg:dash:schema:mpd:2011">', '</p:MPD>', '<BaseURL>', '</BaseURL>', '<', '\x01']
def tl(s): return "<<" + ", ".join(str(ord(c)) for c in s) + ">>"
out = '''------------------------------ MODULE RejectMC ------------------------------
(* Every text made of up to MaxF of the first NF fragments: whether a        *)
(* document has to be accepted or refused, exported to be read by the        *)
(* library through all its entry points.                                     *)
EXTENDS Reject, Json
CONSTANTS MaxF, NF

Frags == <<
'''
for i, f in enumerate(frags):
    out += "  %s%s  \\* %s\n" % (tl(f), "," if i < len(frags) - 1 else "", f.encode('unicode_escape').decode())
out += '''>>

VARIABLES s, n
vars == <<s, n>>
Init == s = <<>> /\\ n = 0
Next == /\\ n < MaxF
        /\\ \\E x \\in 1..NF : s' = s \\o Frags[x]
        /\\ n' = n + 1
Spec == Init /\\ [][Next]_vars

C == Class(s)
Laws == /\\ C.want \\in {"accept", "refuse", "free"}
        (* a document that is cut off before the end of its root is refused  *)
        /\\ C.want = "accept" => \\A k \\in 0..(C.end - 1) : Class(Sub1(s, k)).want = "refuse"
        (* comments, instructions and white space after the root are fine    *)
        /\\ C.want = "accept" => Class(s \\o <<10>>).want = "accept" /\\ Class(s \\o <<60, 33, 45, 45, 45, 45, 62>>).want = "accept"
        (* anything else is not                                              *)
        /\\ C.want = "accept" => \\A t \\in {<<120>>, <<60, 77, 80, 68, 47, 62>>, <<60>>, <<0>>, <<38, 97, 109, 112, 59>>} : Class(s \\o t).want = "refuse"
RECURSIVE WFlat(_)
WFlat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \\o WFlat(Tail(q))
Wide(q, c, k) == WFlat([j \\in DOMAIN q |-> IF q[j] = c THEN [x \\in 1..k |-> c] ELSE <<q[j]>>])
(* the law that carries verdicts on small texts over to large ones: it does  *)
(* not matter how many times a letter of a comment, an instruction or a      *)
(* value is written                                                          *)
Uniform == \\A c \\in {99, 113} : (\\E j \\in DOMAIN s : s[j] = c) => Class(Wide(s, c, 2)).want = C.want
Export == PrintT("##" \\o ToJson([s |-> s, want |-> C.want, why |-> C.why]))
=============================================================================
'''
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'RejectMC.tla'), 'w').write(out)
