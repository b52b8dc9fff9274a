--------------------------- MODULE DateTimesTrace ---------------------------
EXTENDS DateTimes, RecCheck

Plus1(i) == IF i.ns < 999999999 THEN [day |-> i.day, sod |-> i.sod, ns |-> i.ns + 1]
            ELSE LET t == Shift(i.day, i.sod, 1) IN [day |-> t.day, sod |-> t.sod, ns |-> 0]

(* r.k = "fmt": the instant given (exact: the library cuts it; float: the     *)
(*   library may be one nanosecond off below), and the string it gave;        *)
(* r.k = "sec": the string given, and the instant of the float it gave        *)
Verdict1(r) ==
  IF r.panic # "" THEN "panic in a date-time conversion"
  ELSE IF r.k = "fmt"
  THEN IF r.s = Format(r.i) \/ (r.float /\ r.s = Format(Plus1(r.i))) THEN "ok"
       ELSE "an instant is written as another date-time"
  ELSE LET w == ParseDT(r.s) IN
       IF w.ok
       THEN IF ~r.ok THEN "a valid date-time is rejected"
            ELSE IF w.ns = 0 /\ (r.i.day # w.day \/ r.i.sod # w.sod \/ r.i.ns # 0) THEN "a date-time converts to another instant"
            ELSE IF AbsI(Gap(w, r.i)) > Res(w.day) THEN "a date-time converts to another instant" ELSE "ok"
       ELSE IF r.ok /\ ~Grey(r.s) THEN "a string that is no date-time is accepted" ELSE "ok"
=============================================================================
