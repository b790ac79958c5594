--------------------------------- MODULE Burst ---------------------------------
(***************************************************************************)
(* What the monitor of Lin implies for very many overlapping calls each of *)
(* which inserts (or removes) a key of its own: once all have ended, the   *)
(* contents differ from the initial ones by exactly the keys whose calls   *)
(* returned, in whatever order calls, returns and panics came.  ConcTrace  *)
(* uses this for bursts that are too large for the monitor itself.         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Keys, Removing
VARIABLES confs, pend, over, todo, returned
Apply(c, call) == IF Removing THEN [c |-> c \ {call.k}, r |-> call.k \in c]
                  ELSE [c |-> c \cup {call.k}, r |-> call.k \notin c]
AlwaysMod(call) == TRUE
INSTANCE Lin WITH Effect <- Apply, Modification <- AlwaysMod
vars == <<confs, pend, over, todo, returned>>
Before == IF Removing THEN Keys ELSE {}
Init == LinInit(Before) /\ todo = Keys /\ returned = {}
Begin(k) == k \in todo /\ CallStarts(k, [k |-> k]) /\ todo' = todo \ {k} /\ UNCHANGED returned
(* every result that the monitor would accept *)
Return(k) == /\ k \in DOMAIN pend
             /\ \E r \in BOOLEAN : CallReturns(k, LAMBDA x : x = r)
             /\ confs' # {} /\ returned' = returned \cup {k} /\ UNCHANGED todo
Panic(k) == /\ k \in DOMAIN pend /\ CallPanics(k) /\ confs' # {} /\ UNCHANGED <<todo, returned>>
Next == \E k \in Keys : Begin(k) \/ Return(k) \/ Panic(k)
Spec == Init /\ [][Next]_vars
After(R) == IF Removing THEN Keys \ R ELSE R
Conserved == (todo = {} /\ DOMAIN pend = {}) => \A x \in confs : x.c = After(returned)
(* and each of them succeeded *)
AllSucceed == \A x \in confs : \A k \in DOMAIN x.done : x.done[k]
================================================================================
