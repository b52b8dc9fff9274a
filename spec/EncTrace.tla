------------------------------ MODULE EncTrace ------------------------------
(* Sessions with the encoder of the library judged against Enc.tla.  r.got   *)
(* is what the decoder of the library reads in the output, r.wide what was     *)
(* different with a letter written many times.                               *)
EXTENDS RecCheck, Enc

NoEnds(toks) == [j \in DOMAIN toks |-> [toks[j] EXCEPT !.e = 0]]
EncTraceVerdict(r) ==
  LET x == EncVerdict(r)
      P == Parse(r.out, Strict) IN
  IF x # "ok" THEN x
  ELSE IF r.wide # "" THEN r.wide
  ELSE IF P.any \/ P.err \notin {"", "elements left open"} THEN "ok"
  ELSE IF r.err # (IF P.err = "" THEN "eof" ELSE "syntax") THEN "the decoder cannot read it"
  ELSE IF NoEnds(Normal(r.got)) # NoEnds(Normal(Resolved(P.toks, <<>>))) THEN "the decoder reads something else"
  ELSE "ok"
=============================================================================
