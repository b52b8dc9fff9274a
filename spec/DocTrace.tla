------------------------------ MODULE DocTrace ------------------------------
(* Judges documents read and written by the library.                         *)
EXTENDS Doc, RecCheck

(* C01, C04, C20: r.in is the source, r.out what was written for it (both    *)
(* as the referee reads them); r.wide is what was different at another       *)
(* scale: with a letter of the texts, or an entry of a list, written many    *)
(* times                                                                     *)
RoundVerdict(r) ==
  IF r.pan # "" THEN "panic: " \o r.pan
  ELSE IF r.err # "" THEN (IF AllGood("MPD", r.in) THEN "a valid document is refused: " \o r.err ELSE "ok")
  ELSE IF r.werr # "" THEN "a document that was read cannot be written: " \o r.werr
  ELSE IF r.wf # "" THEN (IF HasOuterExt(r.in) THEN "known:ext-scope" ELSE "the output is not well formed: " \o r.wf)
  ELSE LET d == Diff("MPD", r.in, r.out, "") IN
       IF d = "" THEN (IF r.wide = "" THEN "ok" ELSE "at another scale: " \o r.wide)
       ELSE IF HasOuterExt(r.in) THEN "known:ext-scope"
       ELSE d

NoiseVerdict(r) ==
  LET v0 == RoundVerdict(r) IN
  IF v0 \notin {"ok", "known:ext-scope"} /\ HasHomonym("MPD", r.in) THEN "known:homonym" ELSE v0

(* C03: well formed, the header as asked for, every name in its namespace    *)
NsVerdict(r) ==
  IF r.pan # "" THEN "panic: " \o r.pan
  ELSE IF r.err # "" THEN "ok"
  ELSE IF r.werr # "" THEN "a document that was read cannot be written: " \o r.werr
  ELSE IF r.wf # "" \/ r.ns # "" THEN
       (IF HasOuterExt(r.in) THEN "known:ext-scope" ELSE "the output is not well formed: " \o r.wf \o r.ns)
  ELSE IF r.header # r.decl THEN "XML declaration: asked for and present differ"
  ELSE LET d == Astray("MPD", r.in, r.out, "") IN
       IF d = "" THEN "ok" ELSE IF HasOuterExt(r.in) THEN "known:ext-scope" ELSE d

(* C02: r.rounds are the outputs of consecutive rounds with one choice of    *)
(* options (digests), r.vars the documents written with other choices;       *)
(* r.wide is what was different at another scale: with a letter of the texts, *)
(* or an entry of a list, written many times                                 *)
RewriteVerdict(r) ==
  IF r.pan # "" THEN "panic: " \o r.pan
  ELSE IF r.first # "" THEN "ok"                 \* nothing was written
  ELSE IF r.err # "" THEN (IF r.outer THEN "known:ext-scope" ELSE "rewriting library output fails: " \o r.err)
  ELSE IF \E j \in DOMAIN r.rounds : r.rounds[j] # r.rounds[1] THEN "rewriting library output changes it"
  ELSE IF r.wide # "" THEN "at another scale: " \o r.wide
  ELSE IF \E j \in DOMAIN r.vars : r.vars[j].wf # "" THEN (IF r.outer THEN "known:ext-scope" ELSE "not well formed: " \o r.vars[CHOOSE j \in DOMAIN r.vars : r.vars[j].wf # ""].wf)
  ELSE IF \E j \in DOMAIN r.vars : ~SameTree(r.vars[j].t, r.vars[1].t) THEN "the layout options change the content"
  ELSE IF \E j \in DOMAIN r.vars : r.vars[j].header # r.vars[j].decl THEN "XML declaration: asked for and present differ"
  ELSE "ok"

(* C01: a document built through the API: r.want lists what was set, r.got   *)
(* what is there after writing and reading                                   *)
BuiltVerdict(r) ==
  IF r.pan # "" THEN "panic: " \o r.pan
  ELSE IF r.err # "" THEN "a built document is not written and read: " \o r.err
  ELSE IF Len(r.want) # Len(r.got) THEN "built, written and read: values lost or invented"
  ELSE IF r.want # r.got THEN "built, written and read: " \o r.got[CHOOSE j \in DOMAIN r.got : r.got[j] # r.want[j]] ELSE "ok"
=============================================================================
