------------------------------ MODULE ValuesMC ------------------------------
(* Every short string as a value of every kind: whether it must be accepted  *)
(* or rejected, exported to be read by the library.                          *)
EXTENDS Values, Json
CONSTANT MaxLen, Long

Kinds == Ints \cup Floats \cup {"b", "d"}
Alphabet(kind) ==
  CASE kind \in Ints -> {48, 49, 57, 45, 43, 32, 46, 97, 95}              \* 0 1 9 - + space . a _
    [] kind \in Floats -> {48, 50, 46, 45, 43, 101, 32, 120}              \* 0 2 . - + e space x
    [] kind = "b" -> {48, 49, 116, 114, 117, 101, 32}                     \* 0 1 t r u e space
    [] kind = "d" -> {80, 84, 49, 83, 77, 46, 45, 68}                     \* P T 1 S M . - D
(* where the strings start                                                   *)
Dec(x) == x
MaxS(kind) == CASE kind = "u8"  -> <<50,53,53>>
                [] kind = "u16" -> <<54,53,53,51,53>>
                [] kind = "u32" -> <<52,50,57,52,57,54,55,50,57,53>>
                [] kind = "u64" -> <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
                [] kind = "i32" -> <<50,49,52,55,52,56,51,54,52,55>>
                [] kind = "i64" -> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
Bump(c, d) == [c EXCEPT ![Len(c)] = @ + d]           \* the last digit is never 0 or 9 after this
(* with white space that is not one of XML                                   *)
Strange(x) == {<<160>> \o x, x \o <<133>>, <<8195>> \o x, x \o <<12288>>}
Seeds(kind) == Strange(IF kind = "b" THEN <<116,114,117,101>> ELSE IF kind = "d" THEN <<80,84,53,83>> ELSE <<53>>) \cup
  CASE kind \in Ints -> LET x == MaxS(kind) IN
         {x, Bump(x, 1), Bump(x, 2), Bump(x, -1), <<45>> \o x, <<45>> \o Bump(x, 1), <<45>> \o Bump(x, 2), <<48, 48>> \o x, <<48, 48>> \o Bump(x, 1),
          SubSeq(x, 1, Len(x) - 1), <<48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49>>}
    [] kind = "b" -> {<<116,114,117,101>>, <<102,97,108,115,101>>, <<32,102,97,108,115,101>>, <<84,82,85,69>>}
    [] kind = "d" -> {<<80,84,49,72>>, <<80,49,68,84,50,72>>, <<80,84,50,53,54,50,48,52,55,72>>, <<80,84,50,53,54,50,48,52,56,72>>, <<80,49,48,54,55,53,49,68>>, <<80,49,48,54,55,53,50,68>>}
    [] OTHER -> {<<73,78,70>>, <<45,73,78,70>>, <<49,101,53>>, <<49,46,53,101,45,51>>, <<57,57,57,57,57,57>>, <<48,46,48,48,48,48,49>>}

VARIABLES kind, c, n
vars == <<kind, c, n>>
Init == /\ kind \in Kinds
        /\ \/ c = <<>> /\ n = 0
           \/ c \in Seeds(kind) /\ n = MaxLen - Long
Next == /\ n < MaxLen
        /\ \E x \in Alphabet(kind) : c' = Append(c, x)
        /\ n' = n + 1
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

Plain(x) == \A j \in DOMAIN x : x[j] # 95
A1(x) == [s |-> "", n |-> "x", c |-> IF Plain(x) THEN x ELSE <<>>, w |-> <<>>,
          v |-> IF x = <<>> THEN "" ELSE IF x = <<73,78,70>> THEN "INF" ELSE IF x = <<45,73,78,70>> THEN "-INF" ELSE "?"]
a == A1(c)
Want == IF c = <<>> THEN "free" ELSE IF MustAccept(kind, a) THEN "accept" ELSE IF MustReject(kind, a) THEN "refuse" ELSE "free"
Laws == /\ c # <<>> => ~(MustAccept(kind, a) /\ MustReject(kind, a))
        /\ c # <<>> /\ MustAccept(kind, a) => SameValue(kind, a, a)
        /\ c # <<>> /\ MustAccept(kind, a) /\ kind \in Ints => IntOf(<<32>> \o c).ok /\ MustAccept(kind, A1(<<32>> \o c))
        (* a type accepts what a narrower one does                           *)
        /\ c # <<>> /\ kind = "u8" /\ MustAccept("u8", a) => MustAccept("u16", a) /\ MustAccept("u32", a) /\ MustAccept("u64", a) /\ MustAccept("i32", a)
Export == PrintT("##" \o ToJson([kind |-> kind, c |-> c, want |-> Want]))
=============================================================================
