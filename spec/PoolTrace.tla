------------------------------ MODULE PoolTrace ------------------------------
(* What was written (d: digest of the bytes and the outcome) for what (k: the *)
(* document, the options and the behaviour of the sink), over a history of    *)
(* uses of the library: the first has to be a function of the second.         *)
EXTENDS RecCheck, FiniteSets

FuncVerdict(r) ==
  IF r.pan # "" THEN "panic: " \o r.pan
  ELSE IF r.changed # "" THEN "writing changes the document: " \o r.changed
  ELSE LET bad == {j \in DOMAIN r.obs : \E i \in 1..(j - 1) : r.obs[i].k = r.obs[j].k /\ r.obs[i].d # r.obs[j].d} IN
       IF bad = {} THEN "ok"
       ELSE LET j == CHOOSE q \in bad : \A z \in bad : q <= z IN
            "not what is written otherwise: " \o r.obs[j].k
=============================================================================
