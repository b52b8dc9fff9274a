#!/usr/bin/env python3
"""writes spec/XmlMC.tla (fragments spelled as code points)"""
import os
frags=['<a>','</a>','<b/>','<a xmlns="u">','<p:a xmlns:p="v">','</p:a>',"<a x='1' p:y=\"2\">",' ','t','&lt;','&#65;','&bad;',']]>','<![CDATA[',']]','>','<!--','-->','--','<?q ','?>','<!D>','\r','\n','"','<','/>','=','<a ','x="',
 # more for the deep configuration
 '&','&#xD800;',';','<?xml version="1.0"?>','<!D "','<p:b>','</p:b>','x=\'1\'','\t','\x01','é','-','xmlns:p=""','<a x="1"x="2">','&ent;','<!D [<!E>]>']
def tl(s): return "<<"+", ".join(str(ord(c)) for c in s)+">>"
out='''------------------------------- MODULE XmlMC -------------------------------
(* Every text made of up to MaxF fragments out of the first NF, read by the  *)
(* reader of Xml.tla: the specification itself is sane, and every text is    *)
(* exported with the tokens it stands for, to be given to the real decoder.  *)
EXTENDS Xml, TLC, Json
CONSTANTS MaxF, NF, From

Frags == <<
'''
for i,f in enumerate(frags):
    out+="  %s%s  \\* %s\n"%(tl(f),"," if i<len(frags)-1 else "",f.encode('unicode_escape').decode())
out+='''>>
Bad == 1114112 + 255           \\* a byte that is not UTF-8
O == [ents |-> <<[n |-> <<101, 110, 116>>, v |-> <<91, 60, 93>>]>>, lax |-> FALSE]

VARIABLES s, p, n, before
vars == <<s, p, n, before>>
Init == s = <<>> /\\ n = 0 /\\ p = Parse(s, O) /\\ before = p
Next == /\\ n < MaxF
        /\\ \\E f \\in {Frags[x] : x \\in From..NF} \\cup (IF NF = Len(Frags) THEN {<<Bad>>} ELSE {}) : s' = s \\o f
        /\\ n' = n + 1
        /\\ p' = Parse(s', O)
        /\\ before' = p
Spec == Init /\\ [][Next]_vars

R == Resolved(p.toks, <<>>)
L == Parse(s, [O EXCEPT !.lax = TRUE])        \\* read by a decoder that is not strict
Balanced == Nested(R) /\\ (p.err = "" /\\ ~p.any => Open(R, 1, <<>>) = <<>>)
Forward == /\\ p.fin
           /\\ \\A j \\in 1..(Len(p.toks) - 1) : p.toks[j].e <= p.toks[j + 1].e
           /\\ \\A j \\in DOMAIN p.toks : p.toks[j].e <= Len(s)
           /\\ p.err = "" /\\ ~p.any => p.i = Len(s) + 1
(* what has been read does not depend on what comes later                    *)
Sure(toks) == IF toks # <<>> /\\ toks[Len(toks)].k = "text" THEN Sub(toks, 1, Len(toks) - 1) ELSE toks
Streamed == before.any \\/ LET q == Sure(before.toks) IN Len(q) <= Len(p.toks) /\\ Sub(p.toks, 1, Len(q)) = q

(* a text written from the tokens stands for the same tokens                 *)
NoE(toks) == [j \\in DOMAIN toks |-> [toks[j] EXCEPT !.e = 0]]
Again == LET q == Parse(RenderAll(p.toks), Strict)
             closed == p.err = "" IN
         p.any \\/ (/\\ (closed => q.err = "" /\\ ~q.any)
                  /\\ NoE(Normal(RawOf(q.toks))) = NoE(Normal(RawOf(p.toks))))

(* on well-formed text strictness makes no difference; otherwise the tags    *)
(* delivered are nested, too                                                 *)
Lenient == /\\ p.err = "" => L = p
           /\\ Nested(Resolved(L.toks, <<>>))
           /\\ LET q == Sure(p.toks) IN Len(q) <= Len(L.toks) /\\ Sub(L.toks, 1, Len(q)) = q

(* a letter that occurs in no keyword counts for nothing but itself: written *)
(* k times wherever it occurs, it is there k times in every token            *)
RECURSIVE Wide(_, _, _)
Wide(q, c, k) == IF q = <<>> THEN <<>>
                 ELSE (IF q[1] = c THEN [j \\in 1..k |-> c] ELSE <<q[1]>>) \\o Wide(Tail(q), c, k)
WideTok(t, c, k) == [t EXCEPT !.p = Wide(@, c, k), !.n = Wide(@, c, k), !.t = Wide(@, c, k),
                     !.e = t.e + (k - 1) * Cardinality({j \\in 1..t.e : s[j] = c}),
                     !.a = [x \\in DOMAIN t.a |-> [t.a[x] EXCEPT !.p = Wide(@, c, k), !.n = Wide(@, c, k), !.v = Wide(@, c, k)]]]
Uniform == \\A c \\in {98, 112, 121} :
             (\\E j \\in DOMAIN s : s[j] = c) =>
               LET q == Parse(Wide(s, c, 2), O) IN
               q.err = p.err /\\ q.any = p.any /\\ (~p.any => q.toks = [j \\in DOMAIN p.toks |-> WideTok(p.toks[j], c, 2)])

Export == PrintT("##" \\o ToJson([s |-> s, err |-> p.err, any |-> p.any, toks |-> Normal(R),
                                  lerr |-> L.err, lany |-> L.any, lax |-> IF p.err = "" THEN <<>> ELSE Normal(Resolved(L.toks, <<>>))]))
=============================================================================
'''
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'XmlMC.tla'),'w').write(out)
