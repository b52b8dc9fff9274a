----------------------------- MODULE DurationsMC -----------------------------
(* Exhaustive enumeration of duration strings (all strings over the alphabet  *)
(* up to MaxLen, and all structured strings over the component choices), with *)
(* the meaning the specification gives them, exported for replay.             *)
EXTENDS Durations, TLC, Json, FiniteSets
CONSTANTS MaxLen, Mode

Alphabet == <<cP, cT, cD, cH, cM, cS, 48, 49, cDot, cMinus>>

VARIABLES s, c

Nums == {<<48>>, <<49>>, <<53, 57>>, <<54, 48>>, <<48, 48, 55>>, <<49, 48, 48>>}
Big1 == {<<50, 53, 54, 50, 48, 52, 55>>, <<50, 53, 54, 50, 48, 52, 56>>, <<57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57>>,
         <<49, 48, 54, 55, 53, 49>>, <<49, 48, 54, 55, 53, 50>>, <<57,50,50,51,51,55,50,48,51,54>>, <<57,50,50,51,51,55,50,48,51,55>>, <<49,53,51,55,50,50,56,54,55,50>>, <<49,53,51,55,50,50,56,54,55,51>>}
Fracs == {<<>>, <<46, 53>>, <<46, 48, 48, 49>>, <<46, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<46, 49, 50, 51, 52, 53, 54, 55, 56, 57, 57, 57>>, <<46, 56, 53, 52, 55, 55, 53, 56, 48, 55>>, <<46, 56, 53, 52, 55, 55, 53, 56, 48, 56>>, <<46>>}

Empty == <<>>
CompSet(u, ns) == {Empty} \cup {n \o <<u>> : n \in ns}
SecSet(ns) == {Empty} \cup {n \o f \o <<cS>> : n \in ns, f \in Fracs}

InitAll == s = <<>> /\ c = 0
NextAll == c < MaxLen /\ \E i \in 1..Len(Alphabet) : s' = Append(s, Alphabet[i]) /\ c' = c + 1

Few == {<<48>>, <<54, 48>>}
(* component by component: c counts the components decided                    *)
NextForm ==
  /\ c < 5
  /\ c' = c + 1
  /\ \/ c = 0 /\ \E d \in CompSet(cD, Few \cup Big1) : s' = s \o d
     \/ c = 1 /\ \E t \in {<<>>, <<cT>>} : s' = s \o t
     \/ c = 2 /\ \E h \in CompSet(cH, Few \cup Big1) : s' = s \o h
     \/ c = 3 /\ \E m \in CompSet(cM, IF Mode = 1 THEN Few ELSE Few \cup Big1 \cup Nums) : s' = s \o m
     \/ c = 4 /\ \E x \in SecSet(Few \cup (IF Mode = 1 THEN {<<57,50,50,51,51,55,50,48,51,54>>, <<53, 57>>, <<49>>} ELSE Big1)) : s' = s \o x

(* piece by piece: any number form with any unit, in any order                *)
OddNums == {<<>>, <<48>>, <<53>>, <<48, 48, 53>>, <<53, 46, 48>>, <<53, 46, 53>>, <<46, 53>>, <<53, 46>>, <<53, 46, 48, 46, 48>>, <<43, 53>>, <<53, 101, 49>>, <<32, 53>>, <<53, 32>>, <<53, 44, 53>>}
Pieces == {<<cT>>, <<cP>>, <<10>>} \cup {n \o <<u>> : n \in OddNums, u \in {cD, cH, cM, cS}} \cup {<<53>> \o <<u>> : u \in {89, 87, 115, 109, 104, 100}}
InitOdd == s = <<cP>> /\ c = 0
NextOdd == c < MaxLen /\ \E x \in Pieces : s' = s \o x /\ c' = c + 1
SpecOdd == InitOdd /\ [][NextOdd]_<<s, c>>

SpecAll == InitAll /\ [][NextAll]_<<s, c>>
SpecForm == s = <<cP>> /\ c = 0 /\ [][NextForm]_<<s, c>>

-----------------------------------------------------------------------------
R == Parse(s)
(* laws the specification itself must obey *)
Laws ==
  /\ R.ok => /\ s[1] = cP
             /\ \A i \in 1..Len(s) : s[i] # cMinus
             /\ IsDigit(s[Len(s) - 1])
             /\ s[Len(s)] \in {cD, cH, cM, cS}
             /\ BCmp(R.v, MaxDur) <= 0
  /\ R.ok /\ BCmp(R.v, HalfMs) < 0 => TRUE
(* a rendering of the denoted value that the string itself is must be fine    *)
SelfRender == R.ok /\ RenderOK(FALSE, R.v, s) => Denotes(s).ok

(* digits of v, most significant first, for the replay *)
RECURSIVE Pad4(_)
D4(n) == <<n \div 1000, (n \div 100) % 10, (n \div 10) % 10, n % 10>>
Pad4(a) == IF a = <<>> THEN <<>> ELSE Pad4(Tail(a)) \o D4(a[1])
ExportForm == c = 5 => PrintT("##" \o ToJson([s |-> s, ok |-> R.ok, v |-> Pad4(R.v)]))
Export == PrintT("##" \o ToJson([s |-> s, ok |-> R.ok, v |-> Pad4(R.v)]))
=============================================================================
