----------------------------- MODULE RejectTrace -----------------------------
(* What came of texts given to the library.  A record r holds                *)
(*   s      the text, when it is short enough to be judged by Reject.tla     *)
(*   t      the tree the referee sees, when it accepts the text (r.tree)     *)
(*   want   "refuse" when the text is cut off or there is nothing to be read,*)
(*          "any" when a limit of the library may be reached                 *)
(*   out    the outcomes through the entry points: error, no MPD             *)
(*   same   whether all entry points gave the same MPD                       *)
(*   kept   whether the input was left alone                                 *)
(*   alias  whether the MPD changed when the input did                       *)
(*   again  whether a good document was read as ever afterwards              *)
EXTENDS Reject, RecCheck

Verdict21(r) ==
  LET c == IF r.s # <<>> THEN Class(r.s)
           ELSE [want |-> IF r.tree /\ r.want = "" THEN "accept" ELSE "free", why |-> "", end |-> 0]
      bad == r.tree /\ HasBadValue("MPD", r.t)
      root == r.tree /\ r.t.n # "MPD"
      good == r.tree /\ r.t.n = "MPD" /\ AllGood("MPD", r.t) /\ ~HasHomonym("MPD", r.t)
      failed == \E j \in DOMAIN r.out : r.out[j].err # "" IN
  IF r.pan # "" THEN "panic"
  ELSE IF \E j \in DOMAIN r.out : r.out[j].err # "" /\ ~r.out[j].none THEN "an MPD and an error"
  ELSE IF \E j \in DOMAIN r.out : r.out[j].err = "" /\ r.out[j].none THEN "neither an MPD nor an error"
  ELSE IF \E j \in DOMAIN r.out : (r.out[j].err = "") # (r.out[1].err = "") THEN "the entry points differ"
  ELSE IF ~r.same THEN "the entry points read different MPDs"
  ELSE IF ~r.kept THEN "the input was changed"
  ELSE IF r.alias THEN "the MPD depends on the input after reading"
  ELSE IF ~r.again THEN "reading leaves something behind"
  ELSE IF r.want = "refuse" /\ ~failed THEN "accepted although it is incomplete"
  ELSE IF c.want = "refuse" /\ ~failed THEN "accepted: " \o c.why
  ELSE IF root /\ ~failed THEN "accepted: another root element"
  ELSE IF bad /\ ~failed THEN "accepted: a value outside its type"
  ELSE IF c.want = "accept" /\ good /\ failed THEN "refused: " \o r.out[1].err
  ELSE "ok"
=============================================================================
