---------------------------------- MODULE Lin ----------------------------------
(***************************************************************************)
(* What overlapping calls on one mutable object may do, as a monitor that  *)
(* watches calls and returns.  A call takes effect atomically at some      *)
(* moment between its call and its return, or (a modification only) panics *)
(* and has no effect, which it may do only if another modification         *)
(* overlapped it.                                                          *)
(*                                                                         *)
(* The monitor is deterministic: confs is the set of all explanations that *)
(* are still possible, each with the contents of the object and, for the   *)
(* pending calls that have taken effect already, their results.  What was  *)
(* observed is correct as long as confs is not empty.  It is used both on  *)
(* the algorithm (Conc) and on recorded executions (ConcTrace).            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Effect(_, _),      \* Effect(contents, call) = [c |-> contents, r |-> result]
          Modification(_)    \* is the call a modification?

VARIABLES confs, pend, over  \* pend: the pending calls by id; over: ids overlapped by another modification
lvars == <<confs, pend, over>>

LinInit(c0) == confs = { [c |-> c0, done |-> <<>>] } /\ pend = <<>> /\ over = {}

(* all explanations in which any of the pending calls take effect now *)
TakeEffect(x, i) == LET f == Effect(x.c, pend[i]) IN [c |-> f.c, done |-> (i :> f.r) @@ x.done]
RECURSIVE Closure(_)
Closure(X) == LET Y == X \cup UNION { { TakeEffect(x, i) : i \in DOMAIN pend \ DOMAIN x.done } : x \in X }
              IN  IF Y = X THEN X ELSE Closure(Y)
Without(f, i) == [k \in DOMAIN f \ {i} |-> f[k]]

CallStarts(i, call) ==
    LET mods == { j \in DOMAIN pend : Modification(pend[j]) } IN
    /\ pend' = (i :> call) @@ pend
    /\ over' = over \cup (IF Modification(call) THEN DOMAIN pend ELSE {}) \cup (IF mods # {} THEN {i} ELSE {})
    /\ confs' = confs

Forget(i) == pend' = Without(pend, i) /\ over' = over \ {i}
(* ok(r) says whether the observed result is the result r *)
CallReturns(i, ok(_)) ==
    /\ confs' = { [x EXCEPT !.done = Without(@, i)] : x \in { y \in Closure(confs) : i \in DOMAIN y.done /\ ok(y.done[i]) } }
    /\ Forget(i)
CallPanics(i) ==
    /\ Modification(pend[i]) /\ i \in over
    /\ confs' = { x \in confs : i \notin DOMAIN x.done }
    /\ Forget(i)
Explained == confs # {}
=============================================================================
