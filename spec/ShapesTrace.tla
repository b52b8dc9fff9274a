---------------------------- MODULE ShapesTrace ----------------------------
(* What was written for values of all shapes (property C19) and read again:  *)
(* err, or the elements (of the root, or in the struct that holds the field; *)
(* for "attr" and "chardata" one for each attribute or text), wf why they    *)
(* cannot be told, rerr and the texts that were read, back.                  *)
(* own: the error is the one of a method of the value                       *)
(* op "misuse": something that cannot be read into, or that cannot be done   *)
(* with an encoder; "use" what can be; "deep": elements in each other, c[1]  *)
(* deep: there may be a limit, but not below 1000                            *)
EXTENDS RecCheck, Shapes

\* true and false have no place to add to
Same(kk, want, got) == IF kk = "bool" THEN got = <<116,114,117,101>> ELSE want = got
Want(r) == Elements(r.ws, r.k, r.c, r.pos)
SameEls(r) ==
  LET e == Want(r) IN
  /\ Len(r.els) = Len(e)
  /\ \A i \in DOMAIN e :
       /\ Same(r.k, e[i].c, r.els[i].c)
       /\ r.pos \in {"attr", "chardata"} \/ (r.els[i].s = e[i].s /\ r.els[i].n = e[i].n /\ r.els[i].a = e[i].a)
ShapeVerdict(r) ==
  IF r.pan # "" THEN "panic: " \o r.pan
  ELSE IF r.op = "misuse" THEN (IF r.err = "" THEN "what cannot be done is done" ELSE "ok")
  ELSE IF r.op = "use" THEN (IF r.err # "" THEN "refused: " \o r.err ELSE "ok")
  ELSE IF r.op = "deep" THEN
    (IF r.err # "" THEN (IF r.c[1] < 1000 THEN "refused: " \o r.err ELSE "ok")
     ELSE IF r.back # <<r.c>> THEN "another depth is read" ELSE IF r.rerr # "" THEN r.rerr ELSE "ok")
  ELSE IF Open(r.ws, r.k, r.pos) THEN "ok"
  ELSE IF Fails(r.ws, r.k, r.pos) THEN (IF r.err = "" THEN "what cannot be written is written" ELSE IF r.k \in WriteErr /\ ~r.own THEN "another error than the one of the method: " \o r.err ELSE "ok")
  ELSE IF r.k \in Refused /\ r.err # "" THEN "ok"
  ELSE IF r.err # "" THEN "refused: " \o r.err
  ELSE IF r.wf # "" THEN "not well-formed: " \o r.wf
  ELSE IF ~SameEls(r) THEN "not what the value is written as"
  ELSE IF ~Readable(r.ws, r.k, r.pos) THEN "ok"
  ELSE IF ReadFails(r.ws, r.k, r.pos) # "" THEN (IF r.rerr = "" THEN "the method failed to read, but no error is returned"
                                                 ELSE IF ReadFails(r.ws, r.k, r.pos) = "own" /\ ~r.own THEN "another error than the one of the method: " \o r.rerr ELSE "ok")
  ELSE IF r.rerr # "" THEN "what was written cannot be read: " \o r.rerr
  ELSE LET t == Texts(r.ws, r.c) IN
       IF Len(r.back) = Len(t) /\ \A i \in DOMAIN t : Same(r.k, t[i], r.back[i]) THEN "ok" ELSE "the value does not come back"
=============================================================================
