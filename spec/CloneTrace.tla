------------------------------ MODULE CloneTrace ------------------------------
(* Clones made by the library.  A record r holds                             *)
(*   eq     what was written for the original and for the clone is the same  *)
(*   lo, lc what the original and the clone say, line by line                *)
(*   mem    the memory blocks that can be changed through either: [s, lo, hi]*)
(*          s is the side "o" or "c", lo..hi-1 the (renumbered) addresses    *)
(*   stray  parent links inside the clone that leave it                      *)
(*   wide   what is wrong once a list of the original is made long: nothing *)
(*          in the verdict depends on how many elements a list has          *)
(*   muts   changes: side, and digests of what both say before and after     *)
EXTENDS Integers, FiniteSets, RecCheck

Space(r, side) == UNION {r.mem[j].lo..(r.mem[j].hi - 1) : j \in {x \in DOMAIN r.mem : r.mem[x].s = side}}

Bad(u) == IF u.s = "o" THEN u.c0 # u.c1 ELSE u.o0 # u.o1
Idle(u) == IF u.s = "o" THEN u.o0 = u.o1 ELSE u.c0 = u.c1

CloneVerdict(r) ==
  IF r.pan # "" THEN "panic: " \o r.pan
  ELSE IF r.err # "" THEN r.err
  ELSE IF r.lo # r.lc THEN "the clone differs from the original"
  ELSE IF ~r.eq THEN "the clone is written differently"
  ELSE IF r.stray # <<>> THEN "a link of the clone leaves it: " \o r.stray[1]
  ELSE IF \E j \in DOMAIN r.muts : Bad(r.muts[j]) THEN "a change shows on the other side: " \o r.muts[CHOOSE j \in DOMAIN r.muts : Bad(r.muts[j])].at
  ELSE IF \E j \in DOMAIN r.muts : Idle(r.muts[j]) THEN "not a change: " \o r.muts[CHOOSE j \in DOMAIN r.muts : Idle(r.muts[j])].at
  ELSE IF Space(r, "o") \cap Space(r, "c") # {} THEN "the clone shares memory with the original"
  ELSE IF r.wide # "" THEN r.wide
  ELSE "ok"
=============================================================================
