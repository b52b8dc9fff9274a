--------------------------- MODULE DurationsTrace ---------------------------
EXTENDS Durations, RecCheck

Code(ds) == [i \in 1..Len(ds) |-> ds[i]]

ParseVerdict(r) ==
  IF r.panic # "" THEN "panic while parsing a duration"
  ELSE LET want == Parse(r.s) IN
  IF want.ok THEN (IF ~r.ok THEN "a duration of the accepted form is rejected"
                   ELSE IF r.neg \/ FromDigits(r.v) # want.v THEN "a duration parses to a value it does not denote" ELSE "ok")
  ELSE IF r.ok THEN "a string that is no representable duration is accepted" ELSE "ok"

RenderVerdict(r) ==
  IF r.panic # "" THEN "panic while rendering a duration"
  ELSE IF ~RenderOK(r.neg, FromDigits(r.v), r.s) THEN "a rendering does not denote the duration"
  ELSE IF r.neg THEN "ok"
  (* what the library itself makes of its rendering, and renders from that   *)
  (* (within half a millisecond of the largest duration, it denotes a value   *)
  (* that no duration has)                                                    *)
  ELSE IF ~Parse(r.s).ok THEN IF r.back.ok THEN "an unrepresentable rendering parses" ELSE "ok"
  ELSE IF ~r.back.ok \/ r.back.neg \/ FromDigits(r.back.v) # Denotes(r.s).v THEN "a rendering does not parse back"
  ELSE IF r.again # r.s THEN "rendering is not stable" ELSE "ok"
=============================================================================
