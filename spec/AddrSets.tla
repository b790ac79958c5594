------------------------------ MODULE AddrSets ------------------------------
(***************************************************************************)
(* Sets of addresses, represented canonically as the sorted sequence of    *)
(* their maximal ranges << <<lo,hi>>, ... >>: sorted, disjoint and never   *)
(* adjacent.  Equality of sets is equality of these sequences.             *)
(* AddrSetsLemmas.tla checks every operator against plain set theory.      *)
(***************************************************************************)
EXTENDS Addr
LOCAL INSTANCE SequencesExt

Empty == <<>>
RangeSet(lo, hi) == << <<lo, hi>> >>
PrefixSet(p) == << <<First(p), LastOf(p)>> >>
AddrSet(a)   == << <<a, a>> >>

Member(S, a) == \E i \in 1..Len(S) : Le(S[i][1], a) /\ Le(a, S[i][2])

(* is the start of range y within or adjacent to range x (x.lo <= y.lo)? *)
Touches(x, y) == Le(y[1], x[2]) \/ (~IsMax(x[2]) /\ Succ(x[2]) = y[1])

RECURSIVE Merge(_, _)
Merge(X, Y) == IF X = <<>> THEN Y ELSE IF Y = <<>> THEN X
               ELSE IF Lt(Y[1][1], X[1][1]) THEN <<Y[1]>> \o Merge(X, Tail(Y))
               ELSE <<X[1]>> \o Merge(Tail(X), Y)
Absorb(acc, r) == LET n == Len(acc) IN
                  IF n > 0 /\ Touches(acc[n], r)
                  THEN [acc EXCEPT ![n] = <<acc[n][1], MaxA(acc[n][2], r[2])>>]
                  ELSE Append(acc, r)
Coalesce(S) == FoldLeft(Absorb, <<>>, S)      \* S sorted by lower ends
Union(X, Y) == Coalesce(Merge(X, Y))

RECURSIVE Minus(_, _)
Minus(X, Y) ==
    IF X = <<>> \/ Y = <<>> THEN X
    ELSE LET x == X[1]  y == Y[1] IN
         IF Lt(y[2], x[1]) THEN Minus(X, Tail(Y))
         ELSE IF Lt(x[2], y[1]) THEN <<x>> \o Minus(Tail(X), Y)
         ELSE LET left == IF Lt(x[1], y[1]) THEN << <<x[1], Pred(y[1])>> >> ELSE <<>> IN
              left \o (IF Lt(y[2], x[2])
                       THEN Minus(<< <<Succ(y[2]), x[2]>> >> \o Tail(X), Tail(Y))
                       ELSE Minus(Tail(X), Y))
Inter(X, Y)  == Minus(X, Minus(X, Y))
Subset(X, Y) == Minus(X, Y) = <<>>

RECURSIVE UnionAll(_)
UnionAll(ss) == IF ss = <<>> THEN <<>>
                ELSE IF Len(ss) = 1 THEN ss[1]
                ELSE LET h == Len(ss) \div 2 IN
                     Union(UnionAll(SubSeq(ss, 1, h)), UnionAll(SubSeq(ss, h+1, Len(ss))))

(***************************************************************************)
(* The canonical prefix list: the maximal prefixes inside the set, which   *)
(* is also the unique smallest list of prefixes that cover it exactly.     *)
(***************************************************************************)
Fits(lo, hi, l) == Net(lo, l) = lo /\ Le(LastA(lo, l), hi)
RECURSIVE GrowBlock(_, _, _)
GrowBlock(lo, hi, l) == IF l > 0 /\ Fits(lo, hi, l-1) THEN GrowBlock(lo, hi, l-1) ELSE l
RECURSIVE CoverRange(_, _)
CoverRange(lo, hi) ==
    LET l == GrowBlock(lo, hi, Width(lo))
        e == LastA(lo, l)
    IN  << <<lo, l>> >> \o (IF e = hi THEN <<>> ELSE CoverRange(Succ(e), hi))
RECURSIVE PrefixList(_)
PrefixList(S) == IF S = <<>> THEN <<>> ELSE CoverRange(S[1][1], S[1][2]) \o PrefixList(Tail(S))

(* Checking a listing is much cheaper than computing it: a list is the      *)
(* canonical one iff it covers the set exactly, in order and without       *)
(* overlap, and no two neighbours in it are the halves of one prefix.      *)
Mergeable(p, q) == p[2] = q[2] /\ p[2] > 0 /\ Net(p[1], p[2]-1) = Net(q[1], q[2]-1)
IsPrefixList(ps, S) ==
    /\ \A i \in 1..Len(ps) : ps[i] = Masked(ps[i])
    /\ \A i \in 1..(Len(ps)-1) : Lt(LastOf(ps[i]), ps[i+1][1]) /\ ~Mergeable(ps[i], ps[i+1])
    /\ Coalesce([i \in 1..Len(ps) |-> <<ps[i][1], LastOf(ps[i])>>]) = S
(* ps is the first Len(ps) elements of the canonical list of S: the list of *)
(* what it covers, and no element could grow inside S                       *)
IsPrefixListStart(ps, S) ==
    IF ps = <<>> THEN TRUE
    ELSE LET e == LastOf(ps[Len(ps)])
             below == IF IsMax(e) THEN S ELSE Minus(S, RangeSet(Succ(e), Ones(Len(e))))
         IN  /\ IsPrefixList(ps, below)
             /\ \A i \in 1..Len(ps) : ps[i][2] > 0 => ~Subset(PrefixSet(Parent(ps[i])), S)

(* the first and the last aligned block of length l inside a range, if any *)
CeilBlock(lo, l)  == IF Net(lo, l) = lo THEN lo ELSE Succ(LastA(lo, l))
FloorBlock(hi, l) == IF LastA(hi, l) = hi THEN Net(hi, l) ELSE Net(Pred(Net(hi, l)), l)
HasBlock(r, l) == LET s == CeilBlock(r[1], l) IN
                  /\ Le(r[1], s)                      \* no wrap past the end of the space
                  /\ Le(LastA(s, l), r[2])

(* exact counts, as big numbers *)
BlocksIn(r, l) == IF ~HasBlock(r, l) THEN <<>>
                  ELSE BigAdd(BigOne, BigShr(BigSub(BigOfAddr(FloorBlock(r[2], l)), BigOfAddr(CeilBlock(r[1], l))),
                                             Width(r[1]) - l))
RECURSIVE NumPrefixes(_, _)
NumPrefixes(S, l) == IF S = <<>> THEN <<>> ELSE BigAdd(BlocksIn(S[1], l), NumPrefixes(Tail(S), l))
NumAddrs(S) == IF S = <<>> THEN <<>> ELSE NumPrefixes(S, Width(S[1][1]))

(***************************************************************************)
(* Allocation of a prefix of length l from S avoiding R: the result must   *)
(* lie in a smallest maximal free block that has room for it.              *)
(***************************************************************************)
FreeBlocks(S, R) == PrefixList(Minus(S, R))
CanAllocDef(S, R, l) == LET fb == FreeBlocks(S, R) IN \E i \in 1..Len(fb) : fb[i][2] <= l
BestFitDef(S, R, l, p) ==
    LET fb == FreeBlocks(S, R) IN
    \E i \in 1..Len(fb) :
        /\ fb[i][2] <= l
        /\ Covers(fb[i], p)
        /\ \A j \in 1..Len(fb) : fb[j][2] <= l => fb[j][2] <= fb[i][2]
(* the same without listing all free blocks (equivalence: AddrSetsLemmas) *)
Inside(r, a, l) == Le(r[1], Net(a, l)) /\ Le(LastA(a, l), r[2])
MaximalBlock(r, a, l) == Inside(r, a, l) /\ (l = 0 \/ ~Inside(r, a, l-1))
HasMaximalBlock(r, l) == HasBlock(r, l) /\ (MaximalBlock(r, CeilBlock(r[1], l), l) \/ MaximalBlock(r, FloorBlock(r[2], l), l))
RECURSIVE GrowIn(_, _, _)
GrowIn(r, a, l) == IF l > 0 /\ Inside(r, a, l-1) THEN GrowIn(r, a, l-1) ELSE l
CanAlloc(S, R, l) == LET F == Minus(S, R) IN \E i \in 1..Len(F) : HasBlock(F[i], l)
BestFit(S, R, l, p) ==
    LET F == Minus(S, R) IN
    \E i \in 1..Len(F) :
        /\ p[2] >= l
        /\ Inside(F[i], p[1], p[2])
        /\ LET g == GrowIn(F[i], p[1], p[2]) IN
           /\ g <= l
           /\ \A m \in (g+1)..l : \A j \in 1..Len(F) : ~HasMaximalBlock(F[j], m)
=============================================================================
