------------------------------- MODULE Lookup -------------------------------
(* What a Representation answers about itself: its own values, or those of   *)
(* the AdaptationSet its parent link points to, and its addresses, which are *)
(* the template's with the identifiers replaced.  A state h is               *)
(*   sets, reps : Seq of [mime, codecs, cps : Seq of names,                  *)
(*                        st : <<>> or <<[i, m : texts (byte codes), n]>>]   *)
(*                reps also id : text, bw : text of the decimal digits       *)
(*   kids : per set its representations in order                             *)
(*   link : per representation the set it is linked to, 0 for none           *)
EXTENDS Integers, Sequences, FiniteSets

(* $RepresentationID$ and $Bandwidth$                                        *)
RepID == <<36, 82, 101, 112, 114, 101, 115, 101, 110, 116, 97, 116, 105, 111, 110, 73, 68, 36>>
BandW == <<36, 66, 97, 110, 100, 119, 105, 100, 116, 104, 36>>
HereT(t, j, p) == j + Len(p) - 1 <= Len(t) /\ SubSeq(t, j, j + Len(p) - 1) = p
Ident(t, j) == IF j > Len(t) THEN <<>> ELSE IF t[j] # 36 THEN <<>> ELSE IF HereT(t, j, RepID) THEN RepID ELSE IF HereT(t, j, BandW) THEN BandW ELSE <<>>

(* Every identifier is replaced, once, and what was put in is left alone.    *)
(* Two identifiers that share a dollar sign cannot both be replaced; then    *)
(* either reading will do, so the answer is a set of texts.                  *)
RECURSIVE ExpandFrom(_, _, _, _, _, _)
ExpandFrom(t, j, from, id, bw, out) ==      \* text from..j-1 is copied as it is
  IF j > Len(t) THEN {out \o SubSeq(t, from, Len(t))}
  ELSE LET p == Ident(t, j)
           upto == out \o SubSeq(t, from, j - 1)
           val(x) == IF x = RepID THEN id ELSE bw IN
       IF p = <<>> THEN ExpandFrom(t, j + 1, from, id, bw, out)
       ELSE LET e == j + Len(p)
                q == Ident(t, e - 1) IN
            ExpandFrom(t, e, e, id, bw, upto \o val(p))
            \cup (IF q = <<>> THEN {}
                  ELSE ExpandFrom(t, e - 1 + Len(q), e - 1 + Len(q), id, bw, upto \o SubSeq(p, 1, Len(p) - 1) \o val(q)))
Expand(t, id, bw) == ExpandFrom(t, 1, 1, id, bw, <<>>)

-----------------------------------------------------------------------------
Own(h, r, f) == CASE f = "mime" -> h.reps[r].mime [] f = "codecs" -> h.reps[r].codecs
                  [] f = "cps" -> h.reps[r].cps [] OTHER -> h.reps[r].st
OfSet(h, a, f) == CASE f = "mime" -> h.sets[a].mime [] f = "codecs" -> h.sets[a].codecs
                  [] f = "cps" -> h.sets[a].cps [] OTHER -> h.sets[a].st
Unset(f) == IF f \in {"mime", "codecs"} THEN "" ELSE <<>>
Look(h, r, f) == IF Own(h, r, f) # Unset(f) \/ h.link[r] = 0 THEN Own(h, r, f) ELSE OfSet(h, h.link[r], f)

(* the errors an address may be refused with, none when there is an address  *)
AddrErrs(h, r) == (IF h.link[r] = 0 THEN {"parent"} ELSE {}) \cup (IF Look(h, r, "st") = <<>> THEN {"template"} ELSE {})
Addr(h, r, media) == LET st == Look(h, r, "st")[1] IN
                     Expand(IF media THEN st.m ELSE st.i, h.reps[r].id, h.reps[r].bw)

-----------------------------------------------------------------------------
(* editing                                                                   *)
NewSet(h, x) == [h EXCEPT !.sets = Append(h.sets, x), !.kids = Append(h.kids, <<>>)]
NewRep(h, x) == [h EXCEPT !.reps = Append(h.reps, x), !.link = Append(h.link, 0)]
SetSet(h, a, x) == [h EXCEPT !.sets[a] = x]
SetRep(h, r, x) == [h EXCEPT !.reps[r] = x]
Link(h, r, a) == [h EXCEPT !.link[r] = a]
Put(h, r, a) == [h EXCEPT !.kids[a] = Append(h.kids[a], r), !.link[r] = a]
(* a copy of set a and of its representations                                *)
CopySet(h, a) ==
  LET n == Len(h.reps)
      s == Len(h.sets) + 1
      ks == h.kids[a] IN
  [h EXCEPT !.sets = Append(h.sets, h.sets[a]),
            !.reps = h.reps \o [j \in DOMAIN ks |-> h.reps[ks[j]]],
            !.kids = Append(h.kids, [j \in DOMAIN ks |-> n + j]),
            !.link = h.link \o [j \in DOMAIN ks |-> s]]
(* the document that holds all sets, written and read (or cloned): copies of *)
(* all of them                                                               *)
RECURSIVE CopyUpTo(_, _)
CopyUpTo(h, a) == IF a = 0 THEN h ELSE CopySet(CopyUpTo(h, a - 1), a)
CopyDoc(h) == CopyUpTo(h, Len(h.sets))
(* links everything where it is                                              *)
LinkAll(h) == [h EXCEPT !.link = [r \in DOMAIN h.reps |->
                 IF \E a \in DOMAIN h.sets : \E j \in DOMAIN h.kids[a] : h.kids[a][j] = r
                 THEN CHOOSE a \in DOMAIN h.sets : \E j \in DOMAIN h.kids[a] : h.kids[a][j] = r ELSE h.link[r]]]

Step(h, o) ==
  CASE o.op = "newset"  -> NewSet(h, o.v)
    [] o.op = "newrep"  -> NewRep(h, o.v)
    [] o.op = "setset"  -> SetSet(h, o.x, o.v)
    [] o.op = "setrep"  -> SetRep(h, o.x, o.v)
    [] o.op = "link"    -> Link(h, o.x, o.y)
    [] o.op = "put"     -> Put(h, o.x, o.y)
    [] o.op = "clone"   -> CopySet(h, o.x)
    [] o.op \in {"reread", "clonedoc"} -> CopyDoc(h)
    [] o.op = "setparents" -> LinkAll(h)
    [] OTHER -> h
=============================================================================
