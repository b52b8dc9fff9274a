--------------------------------- MODULE Big ---------------------------------
(* Natural numbers beyond TLC's 32 bits: little-endian sequences of base     *)
(* 10000 digits without leading zeros (zero is <<>>).                        *)
EXTENDS Integers, Sequences

BB == 10000

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxI(x, y) == IF x > y THEN x ELSE y

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
  IF i > MaxI(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == At(a, i) + At(b, i) + c IN <<s % BB>> \o AddC(a, b, i + 1, s \div BB)
BAdd(a, b) == Trim(AddC(a, b, 1, 0))

(* a - b for a >= b *)
RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - At(b, i) - c IN
       IF s < 0 THEN <<s + BB>> \o SubC(a, b, i + 1, 1) ELSE <<s>> \o SubC(a, b, i + 1, 0)
BSub(a, b) == Trim(SubC(a, b, 1, 0))

(* times a small number (at most 100000) *)
RECURSIVE MulC(_, _, _, _)
MulC(a, k, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c % BB>> \o MulC(a, k, i, c \div BB))
  ELSE LET s == a[i] * k + c IN <<s % BB>> \o MulC(a, k, i + 1, s \div BB)
BMul(a, k) == Trim(MulC(a, k, 1, 0))

RECURSIVE CmpC(_, _, _)
CmpC(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpC(a, b, i - 1)
BCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpC(a, b, Len(a))

RECURSIVE FromDigitsR(_, _)
(* s: sequence of decimal digits (0..9), most significant first *)
FromDigitsR(s, n) ==
  IF n <= 0 THEN <<>>
  ELSE LET d(j) == IF n - j >= 1 THEN s[n - j] ELSE 0 IN
       <<d(0) + 10 * d(1) + 100 * d(2) + 1000 * d(3)>> \o FromDigitsR(s, n - 4)
FromDigits(s) == Trim(FromDigitsR(s, Len(s)))

BNat(n) == IF n < BB THEN Trim(<<n>>) ELSE IF n < BB * BB THEN Trim(<<n % BB, n \div BB>>)
           ELSE Trim(<<n % BB, (n \div BB) % BB, n \div (BB * BB)>>)

BDist(a, b) == IF BCmp(a, b) >= 0 THEN BSub(a, b) ELSE BSub(b, a)
=============================================================================
