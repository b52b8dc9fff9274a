------------------------------ MODULE DateTimes ------------------------------
(* xs:dateTime values of MPDs: the proleptic Gregorian calendar, the textual  *)
(* form YYYY-MM-DDThh:mm:ss[.fff](Z|+hh:mm|-hh:mm), and its instant.          *)
(* An instant is [day, sod, ns]: days since 1970-01-01, second of the day,    *)
(* nanosecond.  Strings are sequences of character codes.                     *)
EXTENDS Integers, Sequences

FDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a + b - 1) \div b)
FMod(a, b) == a - b * FDiv(a, b)

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> IF Leap(y) THEN 29 ELSE 28
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>

LeapsBefore(y) == IF y <= 0 THEN 0 ELSE LET z == y - 1 IN z \div 4 - z \div 100 + z \div 400 + 1   \* leap years in 0..y-1
(* days since 1970-01-01 of a date with year in 0..9999                      *)
DayOf(y, m, d) == 365 * y + LeapsBefore(y) + CumDays[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + (d - 1) - 719528

YearStart(y) == DayOf(y, 1, 1)
(* the year of a day: estimate, then correct                                 *)
YearOf(day) == LET e == FDiv((day + 719528) * 4, 1461) IN
               IF YearStart(e + 1) <= day THEN e + 1 ELSE IF YearStart(e) <= day THEN e ELSE e - 1
Civil(day) ==
  LET y == YearOf(day)
      r == day - YearStart(y)
      m == CHOOSE k \in 1..12 : DayOf(y, k, 1) <= day /\ (k = 12 \/ DayOf(y, k + 1, 1) > day) IN
  [y |-> y, m |-> m, d |-> day - DayOf(y, m, 1) + 1]

-----------------------------------------------------------------------------
Dig(n) == 48 + n
D2(n) == <<Dig(n \div 10), Dig(n % 10)>>
D3(n) == <<Dig(n \div 100), Dig((n \div 10) % 10), Dig(n % 10)>>
D4(n) == <<Dig(n \div 1000), Dig((n \div 100) % 10), Dig((n \div 10) % 10), Dig(n % 10)>>

FracMs(ms) == IF ms = 0 THEN <<>>
              ELSE IF ms % 100 = 0 THEN <<46, Dig(ms \div 100)>>
              ELSE IF ms % 10 = 0 THEN <<46>> \o D2(ms \div 10)
              ELSE <<46>> \o D3(ms)

Local(day, sod) == LET c == Civil(day) IN
  D4(c.y) \o <<45>> \o D2(c.m) \o <<45>> \o D2(c.d) \o <<84>> \o
  D2(sod \div 3600) \o <<58>> \o D2((sod \div 60) % 60) \o <<58>> \o D2(sod % 60)

(* rendering of an instant: UTC, cut to milliseconds                         *)
Format(i) == Local(i.day, i.sod) \o FracMs(i.ns \div 1000000) \o <<90>>

(* shift by a number of seconds                                               *)
Shift(day, sod, by) == [day |-> day + FDiv(sod + by, 86400), sod |-> FMod(sod + by, 86400)]

(* rendering with a zone offset of off minutes                               *)
FormatZone(i, off) ==
  LET l == Shift(i.day, i.sod, 60 * off)
      a == IF off < 0 THEN -off ELSE off IN
  Local(l.day, l.sod) \o FracMs(i.ns \div 1000000) \o
  (IF off < 0 THEN <<45>> ELSE <<43>>) \o D2(a \div 60) \o <<58>> \o D2(a % 60)

-----------------------------------------------------------------------------
IsD(c) == c >= 48 /\ c <= 57
AllD(s, i, j) == j <= Len(s) /\ \A k \in i..j : IsD(s[k])
RECURSIVE Num(_, _, _)
Num(s, i, j) == IF i > j THEN 0 ELSE 10 * Num(s, i, j - 1) + (s[j] - 48)
RECURSIVE EndD(_, _)
EndD(s, i) == IF i <= Len(s) /\ IsD(s[i]) THEN EndD(s, i + 1) ELSE i
FracNs(s, i, j) == LET dig(k) == IF i + k <= j THEN s[i + k] - 48 ELSE 0 IN
   LET f[k \in 0..9] == IF k = 0 THEN 0 ELSE 10 * f[k-1] + dig(k-1) IN f[9]

Reject == [ok |-> FALSE, day |-> 0, sod |-> 0, ns |-> 0]

(* the instant a string of the strict form denotes                            *)
ParseDT(s) ==
  IF ~(Len(s) >= 20 /\ AllD(s, 1, 4) /\ s[5] = 45 /\ AllD(s, 6, 7) /\ s[8] = 45 /\ AllD(s, 9, 10) /\ s[11] = 84
       /\ AllD(s, 12, 13) /\ s[14] = 58 /\ AllD(s, 15, 16) /\ s[17] = 58 /\ AllD(s, 18, 19)) THEN Reject
  ELSE LET y == Num(s, 1, 4)  mo == Num(s, 6, 7)  d == Num(s, 9, 10)
           h == Num(s, 12, 13)  mi == Num(s, 15, 16)  se == Num(s, 18, 19)
           fe == IF s[20] = 46 THEN EndD(s, 21) ELSE 20
           ns == IF s[20] = 46 THEN FracNs(s, 21, fe - 1) ELSE 0
           zLen == Len(s) - fe + 1
           zZ == zLen = 1 /\ s[fe] = 90
           zN == zLen = 6 /\ s[fe] \in {43, 45} /\ AllD(s, fe + 1, fe + 2) /\ s[fe + 3] = 58 /\ AllD(s, fe + 4, fe + 5)
           zh == Num(s, fe + 1, fe + 2)  zm == Num(s, fe + 4, fe + 5) IN
       IF s[20] = 46 /\ fe = 21 THEN Reject
       ELSE IF ~(mo \in 1..12 /\ h < 24 /\ mi < 60 /\ se < 60) THEN Reject
       ELSE IF ~(d >= 1 /\ d <= MonthLen(y, mo)) THEN Reject
       ELSE IF zZ THEN [ok |-> TRUE, day |-> DayOf(y, mo, d), sod |-> 3600 * h + 60 * mi + se, ns |-> ns]
       ELSE IF zN /\ zh < 24 /\ zm < 60
            THEN LET off == 60 * (60 * zh + zm)
                     u == Shift(DayOf(y, mo, d), 3600 * h + 60 * mi + se, IF s[fe] = 43 THEN -off ELSE off) IN
                 [ok |-> TRUE, day |-> u.day, sod |-> u.sod, ns |-> ns]
       ELSE Reject

(* Forms that parsers commonly tolerate and about which nothing is promised: *)
(* decimal comma, one-digit hour, zone hour 24 or zone minute 60.            *)
Pad(s) == IF Len(s) >= 12 THEN SubSeq(s, 1, 11) \o <<48>> \o SubSeq(s, 12, Len(s)) ELSE s
Dots(s) == [i \in 1..Len(s) |-> IF s[i] = 44 THEN 46 ELSE s[i]]
Zones(s) == LET n == Len(s) IN
  IF n < 25 \/ s[n-2] # 58 THEN s
  ELSE LET a == IF SubSeq(s, n-4, n-3) = <<50, 52>> THEN [s EXCEPT ![n-3] = 51] ELSE s IN
       IF SubSeq(a, n-1, n) = <<54, 48>> THEN [a EXCEPT ![n-1] = 53] ELSE a
Grey(s) == ~ParseDT(s).ok /\ \E a \in {s, Pad(s)} : \E b \in {a, Dots(a)} : \E c \in {b, Zones(b)} : ParseDT(c).ok

(* nanoseconds from a to b, if less than two seconds apart                    *)
Gap(a, b) == LET dd == b.day - a.day IN
   IF dd > 1 \/ dd < -1 THEN 2000000000
   ELSE LET ds == dd * 86400 + b.sod - a.sod IN
        IF ds > 1 \/ ds < -1 THEN 2000000000 ELSE ds * 1000000000 + (b.ns - a.ns)
AbsI(x) == IF x < 0 THEN -x ELSE x

(* resolution of a float64 holding that many days' worth of seconds          *)
Res(day) == IF AbsI(day) < 24000 THEN 480 ELSE 61036
=============================================================================
