-------------------------------- MODULE Pool --------------------------------
(* The pool of encoders behind WriteXML.  An encoder carries state from one  *)
(* action to the next (Effect).  Threads take encoders from the pool, work   *)
(* with them, and give them back however their work ended; what a write      *)
(* produces depends on its own document and options alone exactly when it    *)
(* starts with an encoder in the state of a new one that nobody else holds.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Encs, MaxLen, Missing   \* Missing: state not reset (to see that it matters)

Fields == {"indent", "prefix", "depth", "elements", "seq", "newline", "indentedIn", "mixed", "err", "closed", "buffer", "target"}
Actions == {"indent", "prefix", "open", "openns", "openclash", "text", "badend", "badpi", "comment", "encode", "unwritable", "panics", "midtext", "flush", "close", "sinkfail"}
Effect(a) ==
  CASE a = "indent" -> {"indent"}
    [] a = "prefix" -> {"indent", "prefix"}
    [] a \in {"open", "openns"} -> {"elements", "depth", "newline", "indentedIn", "buffer"}
    [] a = "openclash" -> {"elements", "depth", "newline", "indentedIn", "buffer", "seq"}
    [] a \in {"text", "comment"} -> {"buffer"}
    [] a \in {"badend", "badpi"} -> {}
    [] a = "encode" -> {"newline", "indentedIn", "seq"}
    [] a \in {"unwritable", "panics"} -> {"elements", "depth", "newline", "indentedIn", "seq", "buffer"}
    [] a = "midtext" -> {"elements", "depth", "newline", "indentedIn", "seq", "buffer", "mixed"}
    [] a = "flush" -> {}
    [] a = "close" -> {"closed", "err"}
    [] a = "sinkfail" -> {"err", "buffer"}

VARIABLES pool, used, held, dirty, startDirty, log
vars == <<pool, used, held, dirty, startDirty, log>>
Nobody == "none"
Free == 0                                  \* Encs are numbers from 1

Init == /\ pool = {} /\ used = {} /\ held = [t \in Threads |-> Free] /\ dirty = [e \in Encs |-> {}]
        /\ startDirty = [t \in Threads |-> {}] /\ log = <<>>

(* the pool may also drop an encoder and make a new one at any time          *)
Acquire(t) ==
  /\ held[t] = Free
  /\ \E e \in Encs :
       /\ e \in pool \/ e \notin used
       /\ pool' = pool \ {e} /\ used' = used \cup {e}
       /\ held' = [held EXCEPT ![t] = e]
       /\ LET d == dirty[e] \ ({"buffer", "closed", "err", "target"} \ Missing) IN
          /\ startDirty' = [startDirty EXCEPT ![t] = d]
          /\ dirty' = [dirty EXCEPT ![e] = d \cup {"target"}]
  /\ UNCHANGED log
Act(t, a) ==
  /\ held[t] # Free
  /\ dirty' = [dirty EXCEPT ![held[t]] = dirty[held[t]] \cup Effect(a)]
  /\ UNCHANGED <<pool, used, held, startDirty>>
Release(t) ==
  /\ held[t] # Free
  /\ dirty' = [dirty EXCEPT ![held[t]] = dirty[held[t]] \ (Fields \ Missing)]
  /\ pool' = pool \cup {held[t]}
  /\ held' = [held EXCEPT ![t] = Free]
  /\ UNCHANGED <<used, startDirty>>
NoLog == UNCHANGED log
Next == \E t \in Threads : Acquire(t) \/ (Release(t) /\ NoLog) \/ \E a \in Actions : Act(t, a) /\ NoLog
Spec == Init /\ [][Next]_vars

Clean == \A t \in Threads : held[t] # Free => startDirty[t] = {}
Exclusive == \A t, u \in Threads : t # u /\ held[t] # Free => held[t] # held[u]
Apart == \A t \in Threads : held[t] \notin pool
Forgets == \A e \in pool : dirty[e] = {}              \* nothing of a user is kept alive or shown to the next

(* histories of one thread, for replay: what it did with its encoders        *)
LogNext == \E t \in Threads :
  \/ (held[t] = Free /\ Acquire(t))
  \/ held[t] # Free /\ Len(log) < MaxLen /\
     \/ \E a \in Actions : Act(t, a) /\ log' = Append(log, a)
     \/ log # <<>> /\ log[Len(log)] # "release" /\ Release(t) /\ log' = Append(log, "release")
LogSpec == Init /\ [][LogNext]_vars
Export == (\E t \in Threads : held[t] # Free) => PrintT("##" \o ToJson([acts |-> log]))
=============================================================================
