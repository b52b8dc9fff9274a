------------------------------- MODULE Periods -------------------------------
(* Period timing rules of ISO/IEC 23009-1, 5.3.2.1, as dash-mpd offers them:  *)
(* Period.GetIndex / GetStart / GetDuration / GetType / AbsoluteStart over an *)
(* MPD that is edited between the questions.                                  *)
(*                                                                            *)
(* An MPD state m is a record                                                 *)
(*   type : "static" | "dynamic" | "absent"   (absent means static)           *)
(*   mup  : BOOLEAN                 (@minimumUpdatePeriod present)            *)
(*   mdur : Nat or None             (@mediaPresentationDuration)              *)
(*   ast  : "none" | "ok" | "bad"   (@availabilityStartTime)                  *)
(*   list : sequence of period ids  (children of the MPD, in order)           *)
(*   per  : id -> [start, dur : Nat or None, par : "none" | "m" | "o"]        *)
(*          par says which MPD the period's parent link points to             *)
(*          ("o" is another MPD, with no periods)                             *)
EXTENDS Integers, Sequences, FiniteSets

None == -1

Ok(x)  == [e |-> "", v |-> x]
Err(c) == [e |-> c, v |-> 0]

IsStatic(m) == m.type # "dynamic"

IndexIn(s, p) == IF \E i \in 1..Len(s) : s[i] = p
                 THEN CHOOSE i \in 1..Len(s) : s[i] = p /\ \A j \in 1..(i-1) : s[j] # p
                 ELSE 0

(* What every question answers first: is the period placed in a document?    *)
Placement(m, p) ==
  CASE m.per[p].par = "none" -> Err("parent")
    [] m.per[p].par = "o"    -> Err("notfound")
    [] IndexIn(m.list, p) = 0 -> Err("notfound")
    [] OTHER -> Ok(IndexIn(m.list, p))

(* PeriodStart of the i-th period of the list.                                *)
RECURSIVE StartAt(_, _)
StartAt(m, i) ==
  LET q == m.per[m.list[i]] IN
  IF q.start # None THEN Ok(q.start)
  ELSE IF i > 1
       THEN LET prev == m.per[m.list[i-1]] IN
            IF prev.dur = None THEN Err("unkstart")
            ELSE LET s == StartAt(m, i-1) IN
                 IF s.e # "" THEN Err("unkstart") ELSE Ok(s.v + prev.dur)
       ELSE IF IsStatic(m) THEN Ok(0) ELSE Err("unkstart")

(* Every member of the list is linked to this MPD (SetParents' job).  The     *)
(* rules look at neighbours, so nothing is promised about a placed period of  *)
(* a document in which some neighbour is not linked.                          *)
WellLinked(m) == \A i \in 1..Len(m.list) : m.per[m.list[i]].par = "m"
Promised(m, p) == WellLinked(m) \/ Placement(m, p).e # ""

Index(m, p) == LET x == Placement(m, p) IN IF x.e # "" THEN x ELSE Ok(x.v - 1)

Start(m, p) ==
  LET x == Placement(m, p) IN
  IF x.e = "parent" THEN x
  ELSE IF m.per[p].start # None THEN Ok(m.per[p].start)
  ELSE IF x.e # "" THEN x
  ELSE StartAt(m, x.v)

(* Period duration: @duration wins; otherwise the distance from this          *)
(* period's start to the next one's @start, or, for the last period of a      *)
(* static presentation, to the end of the presentation.                       *)
Dur(m, p) ==
  LET q == m.per[p]
      x == Placement(m, p) IN
  IF q.dur # None THEN Ok(q.dur)
  ELSE IF x.e # "" THEN x
  ELSE LET i == x.v
           last == i = Len(m.list)
           s == StartAt(m, i)
           nextStart == IF last THEN None ELSE m.per[m.list[i+1]].start IN
       IF last
       THEN IF ~IsStatic(m) THEN Err("unkdur")
            ELSE IF m.mdur = None THEN Err("nompd")
            ELSE IF s.e # "" THEN Err("unkdur")
            ELSE Ok(m.mdur - s.v)
       ELSE IF nextStart = None \/ s.e # "" THEN Err("unkdur")
            ELSE Ok(nextStart - s.v)

(* Period kinds.                                                              *)
EarlyTerminated(m, i) ==
  /\ m.per[m.list[i]].dur # None
  /\ \/ m.mup
     \/ i < Len(m.list) /\ m.per[m.list[i+1]].start # None

Type(m, p) ==
  LET x == Placement(m, p) IN
  IF x.e # "" THEN [e |-> x.e, v |-> "bad"]
  ELSE LET i == x.v
           q == m.per[p]
           prevHasDur == i > 1 /\ m.per[m.list[i-1]].dur # None IN
       [e |-> "", v |->
         IF q.start # None
         THEN IF EarlyTerminated(m, i) THEN "early-terminated" ELSE "regular"
         ELSE IF prevHasDur
         THEN IF EarlyTerminated(m, i) THEN "early-terminated" ELSE "regular-or-early-terminated"
         ELSE IF ~IsStatic(m) THEN "early-available"
         ELSE "regular"]

(* AbsoluteStart(m): distance of the period's start from the epoch; reported  *)
(* here relative to @availabilityStartTime of the MPD that is passed in.      *)
Abs(m, p) ==
  IF m.ast = "none" THEN Err("ast")
  ELSE IF m.ast = "bad" THEN Err("badast")
  ELSE Start(m, p)

Answers(m, p) == [idx |-> Index(m, p), start |-> Start(m, p), dur |-> Dur(m, p),
                  type |-> Type(m, p), abs |-> Abs(m, p)]

-----------------------------------------------------------------------------
(* Edits.  Every action of the library's user that changes what the          *)
(* questions depend on.                                                      *)
NewPeriod == [start |-> None, dur |-> None, par |-> "none"]

RemoveAt(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))

Apply(m, e) ==
  CASE e.op = "new"       -> [m EXCEPT !.per = [q \in DOMAIN m.per \cup {e.p} |->
                                   IF q = e.p THEN NewPeriod ELSE m.per[q]]]
    [] e.op = "append"    -> [m EXCEPT !.list = Append(@, e.p), !.per[e.p].par = "m"]
    [] e.op = "rawappend" -> [m EXCEPT !.list = Append(@, e.p)]
    [] e.op = "setstart"  -> [m EXCEPT !.per[e.p].start = e.v]
    [] e.op = "setdur"    -> [m EXCEPT !.per[e.p].dur = e.v]
    [] e.op = "settype"   -> [m EXCEPT !.type = e.s]
    [] e.op = "setmup"    -> [m EXCEPT !.mup = (e.v = 1)]
    [] e.op = "setmdur"   -> [m EXCEPT !.mdur = e.v]
    [] e.op = "setast"    -> [m EXCEPT !.ast = e.s]
    [] e.op = "remove"    -> [m EXCEPT !.list = RemoveAt(@, e.v)]
    [] e.op = "swap"      -> [m EXCEPT !.list = [i \in DOMAIN m.list |-> IF i = e.v THEN m.list[e.w] ELSE IF i = e.w THEN m.list[e.v] ELSE m.list[i]]]
    [] e.op = "tomother"  -> [m EXCEPT !.per[e.p].par = "o"]
    [] e.op = "unparent"  -> [m EXCEPT !.per[e.p].par = "none"]
    [] e.op = "setparents" -> [m EXCEPT !.per = [q \in DOMAIN m.per |->
                                   IF IndexIn(m.list, q) # 0 THEN [m.per[q] EXCEPT !.par = "m"] ELSE m.per[q]]]
    (* continuing on a clone, or on the document written and read back:      *)
    (* only the periods of the list survive, all linked to their MPD         *)
    [] e.op \in {"clone", "reread"} ->
         [m EXCEPT !.per = [q \in {m.list[i] : i \in 1..Len(m.list)} |-> [m.per[q] EXCEPT !.par = "m"]]]
    [] OTHER -> m

Empty == [type |-> "absent", mup |-> FALSE, mdur |-> None, ast |-> "none",
          list |-> <<>>, per |-> [q \in {} |-> NewPeriod]]
=============================================================================
