------------------------------- MODULE Values -------------------------------
(* Attribute values of MPDs by kind: which strings must be accepted, which    *)
(* must be rejected, and when two strings denote the same value.              *)
(* An attribute is [s, n, v, c, w]: namespace, local name, value, the byte    *)
(* codes of the value (when it looks like a number, boolean or duration; <<>> *)
(* otherwise) and its white-space separated words (when it has white space).  *)
EXTENDS Durations, TLC

IsWS(c) == c \in {32, 9, 10, 13}
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ IsWS(s[1]) THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ IsWS(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimWS(s) == LTrim(RTrim(s))

AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
ToDigs(s) == [k \in 1..Len(s) |-> s[k] - 48]
Big10(s) == FromDigits(s)

MaxOf(kind) == CASE kind = "u8"  -> Big10(<<2,5,5>>)
                 [] kind = "u16" -> Big10(<<6,5,5,3,5>>)
                 [] kind = "u32" -> Big10(<<4,2,9,4,9,6,7,2,9,5>>)
                 [] kind = "u64" -> Big10(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)
                 [] kind = "i32" -> Big10(<<2,1,4,7,4,8,3,6,4,7>>)
                 [] kind = "i64" -> MaxDur
Ints == {"u8", "u16", "u32", "u64", "i32", "i64"}
Signed == {"i32", "i64"}
Floats == {"f64", "f32", "finf"}

(* integers: the value of a numeral, sign and magnitude                       *)
IntOf(c) ==
  LET t == TrimWS(c)
      neg == t # <<>> /\ t[1] = 45
      b == IF neg THEN Tail(t) ELSE t IN
  IF AllDigits(b) THEN [ok |-> TRUE, neg |-> neg /\ FromDigits(ToDigs(b)) # <<>>, v |-> FromDigits(ToDigs(b))]
  ELSE [ok |-> FALSE, neg |-> FALSE, v |-> <<>>]

InRange(kind, x) ==
  IF x.neg THEN kind \in Signed /\ BCmp(x.v, BAdd(MaxOf(kind), BNat(1))) <= 0
  ELSE BCmp(x.v, MaxOf(kind)) <= 0

(* decimals: [-]d+[.d+][(e|E)[+|-]d+] as (sign, digits without leading and    *)
(* trailing zeros, exponent of the first digit)                               *)
RECURSIVE StripL(_)
StripL(s) == IF s # <<>> /\ s[1] = 0 THEN StripL(Tail(s)) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE SmallNat(_, _)
SmallNat(ds, acc) == IF ds = <<>> THEN acc ELSE IF acc > 100000 THEN acc ELSE SmallNat(Tail(ds), acc * 10 + ds[1])

BadF == [ok |-> FALSE, neg |-> FALSE, ds |-> <<>>, e |-> 0]
FloatOf(c) ==
  LET t == TrimWS(c)
      neg == t # <<>> /\ t[1] = 45
      b == IF neg THEN Tail(t) ELSE t
      i == RunEnd(b, 1)
      hasDot == i <= Len(b) /\ b[i] = cDot
      j == IF hasDot THEN RunEnd(b, i + 1) ELSE i
      hasE == j <= Len(b) /\ b[j] \in {101, 69}
      k0 == IF hasE /\ j < Len(b) /\ b[j + 1] \in {43, 45} THEN j + 2 ELSE j + 1
      k == IF hasE THEN RunEnd(b, k0) ELSE j
      eneg == hasE /\ j < Len(b) /\ b[j + 1] = 45
      ev == IF hasE THEN SmallNat(Digs(b, k0, k), 0) ELSE 0
      ids == Digs(b, 1, i)
      fds == IF hasDot THEN Digs(b, i + 1, j) ELSE <<>>
      all == ids \o fds
      st == StripL(all)
      e == Len(ids) - (Len(all) - Len(st)) + (IF eneg THEN 0 - ev ELSE ev)
      ds == StripR(st) IN
  IF i = 1 \/ (hasDot /\ j = i + 1) \/ (hasE /\ k = k0) \/ k # Len(b) + 1 THEN BadF
  ELSE [ok |-> TRUE, neg |-> neg /\ ds # <<>>, ds |-> ds, e |-> IF ds = <<>> THEN 0 ELSE e]

Infs == {"INF", "-INF"}

BoolOf(a) ==
  LET t == TrimWS(a.c) IN
  CASE t = <<116,114,117,101>> -> "T"
    [] t = <<49>> -> "T"
    [] t = <<102,97,108,115,101>> -> "F"
    [] t = <<48>> -> "F"
    [] OTHER -> "?"

Words(a) == IF a.w # <<>> THEN SelectSeq(a.w, LAMBDA x : x # "") ELSE IF a.v = "" THEN <<>> ELSE <<a.v>>

(* the value must be accepted                                                 *)
MustAccept(kind, a) ==
  CASE kind \in {"s", "list"} -> TRUE
    [] kind \in Ints -> LET x == IntOf(a.c) IN x.ok /\ InRange(kind, x) /\ (kind \in Signed \/ TrimWS(a.c)[1] # 45)
    [] kind = "b" -> BoolOf(a) # "?"
    [] kind = "d" -> Parse(a.c).ok
    [] kind = "finf" -> a.v \in Infs \/ (FloatOf(a.c).ok /\ Len(FloatOf(a.c).ds) <= 15 /\ FloatOf(a.c).e < 300 /\ FloatOf(a.c).e > -300)
    [] kind = "f64" -> FloatOf(a.c).ok /\ Len(FloatOf(a.c).ds) <= 15 /\ FloatOf(a.c).e < 300 /\ FloatOf(a.c).e > -300
    [] kind = "f32" -> FloatOf(a.c).ok /\ Len(FloatOf(a.c).ds) <= 6 /\ FloatOf(a.c).e < 38 /\ FloatOf(a.c).e > -37
    [] OTHER -> FALSE

(* the value is outside the type and must be rejected.  What is neither is    *)
(* left to the implementation: the empty string, an explicit plus sign,       *)
(* other spellings of booleans and of infinity, hexadecimal floats.           *)
LooksWord(a) == LET t == TrimWS(a.c) IN            \* nothing like a numeral
  a.v # "" /\ (a.c = <<>> \/ (t # <<>> /\ t[1] >= 65 /\ t[1] \notin {73, 78, 80, 84, 70, 105, 110, 116, 102}))
Lower(t) == [i \in DOMAIN t |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
MustReject(kind, a) ==
  CASE kind \in Ints ->
         LET t == TrimWS(a.c)
             x == IntOf(a.c) IN
         \/ LooksWord(a)
         \/ x.ok /\ ~InRange(kind, x)
         \/ t # <<>> /\ ~x.ok /\ t[1] # 43
         \/ t # <<>> /\ t[1] = 43 /\ (~AllDigits(Tail(t)) \/ ~InRange(kind, IntOf(Tail(t))))
    [] kind = "b" ->
         LET t == TrimWS(a.c) IN
         \/ LooksWord(a)
         \/ AllDigits(t) /\ t \notin {<<48>>, <<49>>}
         \/ t # <<>> /\ Lower(t) \notin {<<48>>, <<49>>, <<116>>, <<102>>, <<116,114,117,101>>, <<102,97,108,115,101>>}
    [] kind = "d" -> ~Parse(a.c).ok \/ LooksWord(a)
    [] kind \in Floats ->
         LET t == TrimWS(a.c) IN
         \/ LooksWord(a)
         \/ t # <<>> /\ ~FloatOf(a.c).ok /\ (\A i \in 1..Len(t) : IsDigit(t[i]) \/ t[i] \in {cDot, cMinus})
                     /\ t[1] # cDot /\ t[Len(t)] # cDot /\ ~(Len(t) > 1 /\ t[1] = cMinus /\ t[2] = cDot)
         \/ \E i, j \in 1..Len(t) : i < j /\ t[i] = cDot /\ t[j] = cDot
         \/ \E i \in 1..Len(t) : t[i] \in {32, 9, 10, 13} \/ t[i] > 126
         \/ Len(t) > 1 /\ t[1] \in {43, 45} /\ t[2] \in {43, 45, 101}
         \/ t # <<>> /\ t[Len(t)] \in {43, 45, 101}
    [] OTHER -> FALSE

(* b is what was written for a                                                *)
SameValue(kind, a, b) ==
  CASE kind = "s" -> a.v = b.v
    [] kind = "list" -> Words(a) = Words(b)
    [] kind \in Ints -> IntOf(a.c) = IntOf(b.c) /\ IntOf(b.c).ok
    [] kind = "b" -> BoolOf(a) = BoolOf(b) /\ BoolOf(b) # "?"
    [] kind \in Floats -> IF a.v \in Infs THEN a.v = b.v ELSE FloatOf(b.c).ok /\ FloatOf(a.c) = FloatOf(b.c)
    [] kind = "d" -> LET x == Denotes(a.c)
                            y == Denotes(b.c) IN
                        x.ok /\ y.ok /\ BCmp(BDist(x.v, y.v), HalfMs) <= 0
    [] OTHER -> FALSE

(* the zero value of the kind, which may be left out                          *)
IsZero(kind, a) ==
  CASE kind = "s" -> a.v = ""
    [] kind = "list" -> Words(a) = <<>>
    [] kind \in Ints -> IntOf(a.c).ok /\ IntOf(a.c).v = <<>>
    [] kind = "b" -> BoolOf(a) = "F"
    [] kind \in Floats -> a.v \notin Infs /\ FloatOf(a.c).ok /\ FloatOf(a.c).ds = <<>>
    [] kind = "d" -> Denotes(a.c).ok /\ Denotes(a.c).v = <<>>
    [] OTHER -> FALSE
=============================================================================
