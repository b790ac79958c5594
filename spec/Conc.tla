--------------------------------- MODULE Conc ---------------------------------
(***************************************************************************)
(* The algorithm behind mutable tables and sets: the contents are an       *)
(* immutable structure behind one pointer.  A modification loads the       *)
(* pointer, builds a new structure from what it loaded and swaps the       *)
(* pointer if it still is what it loaded, else it panics; if there is      *)
(* nothing to change it does not swap.  A read loads the pointer once.     *)
(*                                                                         *)
(* Contents are sets of keys.  Pointers are numbered; a new structure gets *)
(* a new number, except that the empty structure is always pointer 0 (a    *)
(* nil pointer), so that a swap can succeed although the pointer changed   *)
(* and changed back.                                                       *)
(*                                                                         *)
(* Variant: "once" is the algorithm; the others are broken ones which the  *)
(* monitor must reject: "twice" loads the pointer a second time to build   *)
(* from, "blind" stores without comparing, "mute" ignores a failed swap.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Procs, Keys, MaxOps, Variant
VARIABLES heap, ptr, pc, cur, old, src, left, confs, pend, over
Apply(c, call) == CASE call.o = "ins" -> [c |-> c \cup {call.k}, r |-> call.k \notin c]
                    [] call.o = "rem" -> [c |-> c \ {call.k}, r |-> call.k \in c]
                    [] call.o = "get" -> [c |-> c, r |-> c]
Mods == { [o |-> o, k |-> k] : o \in {"ins", "rem"}, k \in Keys }
Calls == Mods \cup {[o |-> "get", k |-> 0]}
IsMod(call) == call.o # "get"
INSTANCE Lin WITH Effect <- Apply, Modification <- IsMod

vars == <<heap, ptr, pc, cur, old, src, left, confs, pend, over>>
impl == <<heap, ptr, old, src>>
Init == /\ heap = <<>>                     \* heap[i]: the contents behind pointer i
        /\ ptr = 0
        /\ pc = [p \in Procs |-> "idle"] /\ cur = [p \in Procs |-> [o |-> "get", k |-> 0]]
        /\ old = [p \in Procs |-> 0] /\ src = [p \in Procs |-> {}]
        /\ left = [p \in Procs |-> MaxOps]
        /\ LinInit({})
At(i) == IF i = 0 THEN {} ELSE heap[i]
Goto(p, s) == pc' = [pc EXCEPT ![p] = s]

Start(p) == /\ pc[p] = "idle" /\ left[p] > 0
            /\ \E call \in Calls : cur' = [cur EXCEPT ![p] = call] /\ CallStarts(p, call)
            /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ Goto(p, "called") /\ UNCHANGED impl
Load(p) == /\ pc[p] = "called"
           /\ old' = [old EXCEPT ![p] = ptr]
           /\ src' = [src EXCEPT ![p] = At(ptr)]
           /\ Goto(p, IF Variant = "twice" /\ IsMod(cur[p]) THEN "again" ELSE "loaded")
           /\ UNCHANGED <<heap, ptr, cur, left, confs, pend, over>>
LoadAgain(p) == /\ pc[p] = "again"
                /\ src' = [src EXCEPT ![p] = At(ptr)]
                /\ Goto(p, "loaded")
                /\ UNCHANGED <<heap, ptr, old, cur, left, confs, pend, over>>
Done(p, r) == /\ CallReturns(p, LAMBDA x : x = r) /\ Goto(p, "idle")
              /\ UNCHANGED <<old, src, cur, left>>
Fresh(c) == IF c = {} THEN 0 ELSE Len(heap) + 1
Finish(p) ==
    /\ pc[p] = "loaded"
    /\ LET f == Apply(src[p], cur[p]) IN
       IF f.c = src[p] THEN Done(p, f.r) /\ UNCHANGED <<heap, ptr>>
       ELSE IF ptr = old[p] \/ Variant = "blind"
            THEN /\ ptr' = Fresh(f.c)
                 /\ heap' = IF f.c = {} THEN heap ELSE Append(heap, f.c)
                 /\ Done(p, f.r)
            ELSE /\ UNCHANGED <<heap, ptr>>
                 /\ IF Variant = "mute" THEN Done(p, f.r)
                    ELSE /\ CallPanics(p) /\ Goto(p, "idle") /\ UNCHANGED <<old, src, cur, left>>
Next == \E p \in Procs : Start(p) \/ Load(p) \/ LoadAgain(p) \/ Finish(p)
Spec == Init /\ [][Next]_vars

(* a panic that the monitor would not allow disables Finish *)
NeverStuck == \A p \in Procs : pc[p] = "loaded" =>
                 ENABLED Finish(p)

(* the heap only grows: structures never change (immutability) *)
Immutable == [][\A i \in 1..Len(heap) : heap'[i] = heap[i]]_vars
=============================================================================
