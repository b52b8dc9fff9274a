------------------------------ MODULE TagsTrace ------------------------------
(* What became of Go values and documents (property C19), judged by Tags.tla. *)
(*   op "m"  the value x of type t was written: err, or the element el that   *)
(*           the referee reads in the output (wf: why it cannot), and what    *)
(*           reading it into a new value of the type gave: rerr, back         *)
(*   op "u"  the element el was read into the value x: err, or back           *)
(* ind: with indentation; start: the element that was named for it            *)
(* wide: what was different with a letter of the texts written many times     *)
(* (TagsMC!Uniform)                                                           *)
EXTENDS RecCheck, Tags

RECURSIVE HasRaw(_)
HasRaw(T) == \E i \in DOMAIN T.f : T.f[i].m = "inner" \/ (T.f[i].k = "struct" /\ HasRaw(T.f[i].t))

\* an element named for it is the value of XMLName then
Named(r) == IF r.start.use THEN [r.x EXCEPT !.nm = r.back.nm] ELSE r.x

VerdictM(r) ==
  IF Conflicting(r.t) THEN (IF r.err = "" THEN "fields with conflicting paths are written" ELSE "ok")
  ELSE IF ~Writable(r.t, r.x) THEN (IF r.err = "" THEN "a comment that cannot be read back is written" ELSE "ok")
  ELSE IF r.err # "" THEN "refused: " \o r.err
  ELSE IF r.wf # "" THEN "not well-formed: " \o r.wf
  ELSE IF ~DocIs(r.t, r.x, r.start, r.el, r.ind) THEN "the document is not what the tags describe"
  ELSE LET b == ReadStruct(r.t, ZeroOf(r.t), r.el) IN
    IF b.e = "free" THEN "ok"
    ELSE IF b.e = "error" THEN (IF r.rerr = "" THEN "a value outside its type is read" ELSE "ok")
    ELSE IF r.rerr # "" THEN "what was written cannot be read: " \o r.rerr
    ELSE IF ~SameVal(r.t, b.v, r.back) THEN "what was written is read as something else"
    ELSE IF ~r.ind /\ ~HasRaw(r.t) /\ ~SameVal(r.t, Named(r), r.back) THEN "the value does not come back"
    ELSE "ok"

VerdictU(r) ==
  LET b == ReadStruct(r.t, r.x, r.el) IN
  IF Conflicting(r.t) THEN (IF r.err = "" THEN "fields with conflicting paths are read" ELSE "ok")
  ELSE IF b.e = "free" THEN "ok"
  ELSE IF b.e = "error" THEN (IF r.err = "" THEN "a value outside its type, or another element, is read" ELSE "ok")
  ELSE IF r.err # "" THEN "refused: " \o r.err
  ELSE IF \E i \in DOMAIN r.t.f : Visible(r.t, i) /\ ~Mentioned(r.t, i, r.el) /\ ~SameField(r.t.f[i], r.x.v[i], r.back.v[i])
       THEN "a field is changed that the document does not mention"
  ELSE IF ~SameVal(r.t, b.v, r.back) THEN "the document is read as something else"
  ELSE "ok"

(* a tag whose text describes nothing (TagTextMC) cannot be used             *)
HasM(T, m) == T.xn = m \/ \E i \in DOMAIN T.f : T.f[i].m = m
TagVerdict(r) == IF r.pan # "" THEN "panic: " \o r.pan
                 ELSE IF HasM(r.t, "open") THEN "ok"
                 ELSE IF HasM(r.t, "bad") THEN (IF r.err = "" THEN "a tag that cannot be used is used" ELSE "ok")
                 ELSE IF r.wide # "" THEN r.wide ELSE IF r.op = "m" THEN VerdictM(r) ELSE VerdictU(r)
=============================================================================
