------------------------------ MODULE Durations ------------------------------
(* The durations of MPDs: the accepted form P[nD][T[nH][nM][nS]], what such a *)
(* string denotes, and what a rendering of a duration must denote.            *)
(* Strings are sequences of byte codes, durations are Big nanosecond counts.  *)
EXTENDS Big

cP == 80  cT == 84  cD == 68  cH == 72  cM == 77  cS == 83  cDot == 46  cMinus == 45
IsDigit(c) == c >= 48 /\ c <= 57

(* end of the run of digits starting at i (i itself if there is none)         *)
RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN RunEnd(s, i + 1) ELSE i

Digs(s, i, j) == [k \in 1..(j - i) |-> s[i + k - 1] - 48]

None == [ok |-> FALSE, next |-> 0, int |-> <<>>, frac |-> <<>>]

(* an optional component "n unit" (or "n.n unit") at position i              *)
Comp(s, i, unit, dec) ==
  LET j == RunEnd(s, i)
      k == IF dec /\ j <= Len(s) /\ s[j] = cDot THEN RunEnd(s, j + 1) ELSE j IN
  IF j = i THEN None
  ELSE IF k > j /\ k = j + 1 THEN None
  ELSE IF k <= Len(s) /\ s[k] = unit
       THEN [ok |-> TRUE, next |-> k + 1, int |-> Digs(s, i, j),
             frac |-> IF k > j THEN Digs(s, j + 1, k) ELSE <<>>]
       ELSE None

RECURSIVE IndexOf(_, _, _)
IndexOf(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE IndexOf(s, c, i + 1)

Frac9(f) == [k \in 1..9 |-> IF k <= Len(f) THEN f[k] ELSE 0]

MaxDur == FromDigits(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)

Sec(n) == BMul(BMul(n, 100000), 10000)     \* n seconds in nanoseconds

Bad == [ok |-> FALSE, v |-> <<>>]

(* The exact meaning of a string; Bad if it is not of the form.  No bound.   *)
Denotes(s) ==
  IF s = <<>> \/ s[1] # cP THEN Bad
  ELSE LET t == IndexOf(s, cT, 2)
           dEnd == IF t = 0 THEN Len(s) + 1 ELSE t
           d == Comp(s, 2, cD, FALSE)
           hasD == d.ok /\ d.next = dEnd IN
       IF ~(dEnd = 2 \/ hasD) THEN Bad
       ELSE IF t = 0 THEN (IF hasD THEN [ok |-> TRUE, v |-> Sec(BMul(FromDigits(d.int), 86400))] ELSE Bad)
       ELSE LET h == Comp(s, t + 1, cH, FALSE)
                i1 == IF h.ok THEN h.next ELSE t + 1
                m == Comp(s, i1, cM, FALSE)
                i2 == IF m.ok THEN m.next ELSE i1
                x == Comp(s, i2, cS, TRUE)
                i3 == IF x.ok THEN x.next ELSE i2
                hv == IF h.ok THEN BMul(FromDigits(h.int), 3600) ELSE <<>>
                mv == IF m.ok THEN BMul(FromDigits(m.int), 60) ELSE <<>>
                sv == IF x.ok THEN FromDigits(x.int) ELSE <<>>
                dv == IF hasD THEN BMul(FromDigits(d.int), 86400) ELSE <<>>
                fv == IF x.ok THEN FromDigits(Frac9(x.frac)) ELSE <<>> IN
            IF i3 # Len(s) + 1 \/ i3 = t + 1 THEN Bad
            ELSE [ok |-> TRUE, v |-> BAdd(Sec(BAdd(BAdd(dv, hv), BAdd(mv, sv))), fv)]

(* what parsing must answer                                                   *)
Parse(s) == LET x == Denotes(s) IN IF x.ok /\ BCmp(x.v, MaxDur) <= 0 THEN x ELSE Bad

-----------------------------------------------------------------------------
(* Rendering: s is an acceptable rendering of the magnitude v (neg: sign).   *)
HalfMs == BNat(500000)
Below60(ds) == BCmp(FromDigits(ds), BNat(60)) < 0

RenderOK(neg, v, s) ==
  LET body == IF neg /\ s # <<>> /\ s[1] = cMinus THEN Tail(s) ELSE s
      x == Denotes(body)
      h == Comp(body, 3, cH, FALSE)
      i1 == IF h.ok THEN h.next ELSE 3
      m == Comp(body, i1, cM, FALSE)
      i2 == IF m.ok THEN m.next ELSE i1
      sec == Comp(body, i2, cS, TRUE) IN
  /\ neg /\ v # <<>> => s # <<>> /\ s[1] = cMinus
  /\ x.ok
  /\ Len(body) >= 2 /\ body[2] = cT            \* no days: [-]PT[nH][nM][nS]
  /\ m.ok => Below60(m.int)
  /\ sec.ok => Below60(sec.int)
  /\ IF BCmp(v, HalfMs) < 0 THEN x.v = v
     ELSE /\ BCmp(BDist(x.v, v), HalfMs) <= 0
          /\ sec.ok => Len(sec.frac) <= 3
=============================================================================
