--------------------------- MODULE AddrSetsLemmas ---------------------------
(***************************************************************************)
(* Checks AddrSets against plain set theory: for every pair of sets of     *)
(* addresses of a small space (one state each), every operator agrees with *)
(* its definition on sets of addresses, the canonical prefix list is the   *)
(* unique smallest exact cover, and the cheap forms used on traces agree   *)
(* with the definitions.                                                   *)
(***************************************************************************)
EXTENDS AddrSets
LOCAL INSTANCE SequencesExt
CONSTANT NL           \* limbs
VARIABLES X, Y        \* plain sets of addresses

U == Addresses(NL)
WW == NL * B
PP == AllPrefixes(NL)
AddrsOf(p) == { a \in U : HasAddr(p, a) }

(* the canonical representation of a plain set *)
RECURSIVE RangesFrom(_, _, _)
RangesFrom(Z, a, cur) ==        \* cur: <<>> or the start of the open range
    LET here == a \in Z
        close == IF cur # <<>> /\ (~here) THEN << <<cur[1], Pred(a)>> >> ELSE <<>>
        cur2 == IF here THEN (IF cur = <<>> THEN <<a>> ELSE cur) ELSE <<>>
    IN  close \o (IF IsMax(a) THEN (IF cur2 = <<>> THEN <<>> ELSE << <<cur2[1], a>> >>)
                  ELSE RangesFrom(Z, Succ(a), cur2))
Canon(Z) == RangesFrom(Z, Zero(NL), <<>>)
ToPlain(S) == { a \in U : Member(S, a) }

Init == X \in SUBSET U /\ Y = {}
Next == Y = {} /\ Y' \in SUBSET U /\ UNCHANGED X

x == Canon(X)
y == Canon(Y)
Lemmas1 == /\ ToPlain(x) = X
           /\ Union(x, y) = Canon(X \cup Y)
           /\ Minus(x, y) = Canon(X \ Y)
           /\ Inter(x, y) = Canon(X \cap Y)
           /\ Subset(x, y) = (X \subseteq Y)
           /\ (x = y) = (X = Y)
(* the maximal prefixes inside X *)
Maximal == { p \in PP : AddrsOf(p) \subseteq X /\ ~(p[2] > 0 /\ AddrsOf(Parent(p)) \subseteq X) }
RECURSIVE Val2(_, _)
Val2(ds, i) == IF i > Len(ds) THEN 0 ELSE ds[i] + Base * Val2(ds, i+1)
Lemmas2 == LET pl == PrefixList(x) IN
           /\ ToSet(pl) = Maximal /\ Len(pl) = Cardinality(Maximal)
           /\ \A i \in 1..(Len(pl)-1) : PLt(pl[i], pl[i+1]) /\ Lt(LastOf(pl[i]), pl[i+1][1])
           /\ IsPrefixList(pl, x)
           /\ \A i \in 1..Len(pl) : IsPrefixListStart(SubSeq(pl, 1, i), x)
           /\ \A l \in 0..WW : Val2(NumPrefixes(x, l), 1) = Cardinality({ p \in PP : p[2] = l /\ AddrsOf(p) \subseteq X })
           /\ Val2(NumAddrs(x), 1) = Cardinality(X)
(* no smaller exact cover exists, and no other list passes the cheap check *)
Covers2 == { Q \in SUBSET { p \in PP : AddrsOf(p) \subseteq X } : UNION { AddrsOf(p) : p \in Q } = X }
Lemmas3 == Y = {} => \A Q \in Covers2 : Cardinality(Q) >= Cardinality(Maximal)
Sorted(Q) == SetToSortSeq(Q, PLt)
Lemmas4 == Y = {} => \A Q \in Covers2 : Q # Maximal => ~IsPrefixList(Sorted(Q), x)
(* allocation: cheap forms agree with the definitions *)
Lemmas5 == \A l \in 0..WW :
             /\ CanAlloc(x, y, l) = CanAllocDef(x, y, l)
             /\ CanAlloc(x, y, l) = (\E p \in PP : p[2] = l /\ AddrsOf(p) \subseteq X \ Y)
             /\ \A p \in { q \in PP : q[2] = l } : BestFit(x, y, l, p) = BestFitDef(x, y, l, p)
             /\ CanAlloc(x, y, l) => \E p \in PP : p[2] = l /\ BestFit(x, y, l, p)
=============================================================================
