----------------------------- MODULE DateTimesMC -----------------------------
(* Every day of the chosen years with varying time of day, fraction and zone; *)
(* the calendar laws are checked and each state exported for replay.          *)
EXTENDS DateTimes, TLC, Json
CONSTANTS Years

FewYears == {0,1,4,99,100,101,399,400,401,1582,1600,1677,1678,1899,1900,1969,1970,1972,1999,2000,2001,2004,2023,2024,2025,2038,2100,2261,2262,2263,2400,9996,9999}
SomeYears == FewYears \cup {37 * k : k \in 0..270} \cup 1965..2105
AllYears == 0..9999

VARIABLES y, doy, v
vars == <<y, doy, v>>
DaysIn(yy) == IF Leap(yy) THEN 366 ELSE 365
Day == YearStart(y) + doy - 1

Init == y \in Years /\ doy = 1 /\ v = 0
Next == doy < DaysIn(y) /\ doy' = doy + 1 /\ y' = y /\ v' = (v * 7 + 13 * doy + y) % 10007
Spec == Init /\ [][Next]_vars

Sod == IF v % 9 = 0 THEN 0 ELSE IF v % 9 = 1 THEN 86399 ELSE (v * 8 + doy) % 86400
Ms == IF v % 3 = 0 THEN 0 ELSE IF v % 7 = 1 THEN 999 ELSE IF v % 5 = 1 THEN 100 * (v % 10) ELSE IF v % 11 = 3 THEN 1 ELSE v % 1000
Off == IF v % 4 = 0 THEN 0 ELSE IF v % 13 = 1 THEN 1439 ELSE IF v % 13 = 2 THEN -1439 ELSE (v % 1681) - 840
I == [day |-> Day, sod |-> Sod, ns |-> Ms * 1000000]

LawCivil == LET c == Civil(Day) IN DayOf(c.y, c.m, c.d) = Day /\ c.y = y /\ c.d >= 1 /\ c.d <= MonthLen(c.y, c.m)
LawNext == LET c == Civil(Day)  n == Civil(Day + 1) IN y < 9999 =>
   \/ n = [c EXCEPT !.d = c.d + 1]
   \/ c.d = MonthLen(c.y, c.m) /\ n.d = 1 /\ (IF c.m = 12 THEN n.m = 1 /\ n.y = c.y + 1 ELSE n.m = c.m + 1 /\ n.y = c.y)
LawEpoch == DayOf(1970, 1, 1) = 0 /\ DayOf(2000, 2, 29) = 11016 /\ DayOf(2262, 4, 11) = 106751
Ext(i) == [ok |-> TRUE, day |-> i.day, sod |-> i.sod, ns |-> i.ns]
LawRead == ParseDT(Format(I)) = Ext(I)
InRange == LET l == Shift(Day, Sod, 60 * Off) IN l.day >= YearStart(0) /\ l.day < YearStart(9999) + 365
LawZone == InRange => ParseDT(FormatZone(I, Off)) = Ext(I)
Laws == LawCivil /\ LawNext /\ LawEpoch /\ LawRead /\ LawZone
Export == PrintT("##" \o ToJson([day |-> Day, sod |-> Sod, ms |-> Ms, s |-> Format(I), z |-> IF InRange THEN FormatZone(I, Off) ELSE Format(I), res |-> Res(Day)]))
=============================================================================
