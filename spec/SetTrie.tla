------------------------------- MODULE SetTrie -------------------------------
(***************************************************************************)
(* The design under the sets: the tries of Trie, without values, in which  *)
(* an active node has no children (all below it is in the set) and two     *)
(* active halves of one prefix are replaced by the whole.  Union,          *)
(* intersection and difference walk two tries together and share what they *)
(* take over unchanged; an allocation looks for the smallest free block on *)
(* both sides of every fork.  SetTrieMC checks them for every pair of sets *)
(* of a small space against AddrSets; StoreMC runs them beside Store.      *)
(***************************************************************************)
EXTENDS Trie, AddrSets

Leaf(c, p) == Node(c, Masked(p), TRUE, 0, Nil, Nil)
Same(n, c) == [n |-> n, c |-> c]
(* a fork over two children, neither of them empty *)
Fork(c, p, l, r) ==
    IF /\ Variant # "unmerged" /\ Act(l) /\ Act(r)
       /\ (Variant = "merge any" \/ (Half(p, Pfx(l)) /\ Half(p, Pfx(r))))
    THEN Leaf(c, p) ELSE Node(c, p, FALSE, 0, l, r)

RECURSIVE UnionT(_, _, _)
UnionT(a, b, c) ==
    IF a = Nil THEN Same(b, c) ELSE IF b = Nil \/ Id(a) = Id(b) THEN Same(a, c)
    ELSE IF Pfx(a) = Pfx(b) THEN
        (IF Act(a) THEN Same(a, c) ELSE IF Act(b) THEN Same(b, c)
         ELSE LET l == UnionT(Left(a), Left(b), c)
                  r == UnionT(Right(a), Right(b), l.c)
              IN  IF Id(l.n) = Id(Left(a)) /\ Id(r.n) = Id(Right(a)) THEN Same(a, r.c)
                  ELSE Fork(r.c, Pfx(a), l.n, r.n))
    ELSE IF Covers(Pfx(a), Pfx(b)) \/ Covers(Pfx(b), Pfx(a)) THEN
        LET x == IF Covers(Pfx(a), Pfx(b)) THEN a ELSE b         \* the upper one
            y == IF Covers(Pfx(a), Pfx(b)) THEN b ELSE a
        IN  IF Act(x) THEN Same(x, c)
            ELSE IF Side(Pfx(x), Pfx(y)) = 0
                 THEN LET k == UnionT(Left(x), y, c) IN Fork(k.c, Pfx(x), k.n, Right(x))
                 ELSE LET k == UnionT(Right(x), y, c) IN Fork(k.c, Pfx(x), Left(x), k.n)
    ELSE LET j == Join(Pfx(a), Pfx(b)) IN
         IF Side(j, Pfx(a)) = 0 THEN Fork(c, j, a, b) ELSE Fork(c, j, b, a)

(* a less b.  The halves of a prefix that is split are new *)
RECURSIVE MinusT(_, _, _)
MinusT(a, b, c) ==
    IF a = Nil \/ b = Nil THEN Same(a, c)
    ELSE IF Pfx(a) # Pfx(b) /\ Covers(Pfx(b), Pfx(a)) THEN
        (IF Act(b) THEN Same(Nil, c) ELSE MinusT(a, Kid(b, Side(Pfx(b), Pfx(a))), c))
    ELSE IF ~Covers(Pfx(a), Pfx(b)) THEN Same(a, c)
    ELSE IF ~Act(a) THEN
        LET l == MinusT(Left(a), b, c)
            r == MinusT(Right(a), b, l.c)
        IN  IF Id(l.n) = Id(Left(a)) /\ Id(r.n) = Id(Right(a)) THEN Same(a, r.c)
            ELSE UnionT(l.n, r.n, r.c)
    ELSE IF Pfx(a) = Pfx(b) /\ Act(b) THEN Same(Nil, c)
    ELSE LET h == Halves(Pfx(a))
             l == Leaf(c, h[1])
             r == Leaf(l.c, h[2])
         IN  IF Pfx(a) = Pfx(b)
             THEN LET x == MinusT(l.n, Left(b), r.c)
                      y == MinusT(r.n, Right(b), x.c)
                  IN  UnionT(x.n, y.n, y.c)
             ELSE IF Side(Pfx(a), Pfx(b)) = 0
             THEN LET x == MinusT(l.n, b, r.c) IN UnionT(r.n, x.n, x.c)
             ELSE LET x == MinusT(r.n, b, r.c) IN UnionT(l.n, x.n, x.c)

RECURSIVE InterT(_, _, _)
InterT(a, b, c) ==
    IF a = Nil \/ b = Nil THEN Same(Nil, c)
    ELSE IF ~Covers(Pfx(a), Pfx(b)) /\ ~Covers(Pfx(b), Pfx(a)) THEN Same(Nil, c)
    ELSE IF ~Act(a) THEN LET x == InterT(b, Left(a), c)  y == InterT(b, Right(a), x.c) IN UnionT(x.n, y.n, y.c)
    ELSE IF ~Act(b) THEN LET x == InterT(a, Left(b), c)  y == InterT(a, Right(b), x.c) IN UnionT(x.n, y.n, y.c)
    ELSE Same(IF Covers(Pfx(b), Pfx(a)) THEN a ELSE b, c)

(* the range lo..hi: split at its address with the most trailing zeroes *)
RECURSIVE RangeT(_, _, _)
RangeT(lo, hi, c) ==
    LET l == Common(HostPfx(lo), HostPfx(hi), 0) IN
    IF Net(lo, l) = lo /\ LastA(lo, l) = hi THEN Leaf(c, <<lo, l>>)
    ELSE LET mid == SetBit(Net(lo, l), l + 1)
             x == RangeT(lo, Pred(mid), c)
             y == RangeT(mid, hi, x.c)
         IN  UnionT(x.n, y.n, y.c)

(* where a prefix of length len could be taken: the smallest block, NoMatch if there is none *)
Best(x, y) == IF Variant = "first fit" /\ x # NoMatch THEN x ELSE IF x = NoMatch THEN y ELSE IF y = NoMatch THEN x ELSE IF x[2] < y[2] THEN y ELSE x
RECURSIVE SmallestT(_, _)
SmallestT(n, len) ==
    IF n = Nil \/ len < Pfx(n)[2] THEN NoMatch
    ELSE IF Act(n) THEN Pfx(n)
    ELSE Best(SmallestT(Left(n), len), SmallestT(Right(n), len))
RECURSIVE FindT(_, _, _)
FindT(n, b, len) ==
    IF n = Nil \/ len < Pfx(n)[2] THEN NoMatch
    ELSE IF b = Nil THEN SmallestT(n, len)
    ELSE IF Pfx(n) # Pfx(b) /\ Covers(Pfx(b), Pfx(n)) THEN
        (IF Act(b) THEN NoMatch ELSE FindT(n, Kid(b, Side(Pfx(b), Pfx(n))), len))
    ELSE IF ~Covers(Pfx(n), Pfx(b)) THEN SmallestT(n, len)
    ELSE IF ~Act(n) THEN Best(FindT(Left(n), b, len), FindT(Right(n), b, len))
    ELSE IF Pfx(n) = Pfx(b) /\ Act(b) THEN NoMatch
    ELSE LET h == Halves(Pfx(n))
             l == <<0, h[1], TRUE, 0, Nil, Nil>>
             r == <<0, h[2], TRUE, 0, Nil, Nil>>
         IN  IF Pfx(n) = Pfx(b) THEN Best(FindT(l, Left(b), len), FindT(r, Right(b), len))
             ELSE IF Side(Pfx(n), Pfx(b)) = 0 THEN Best(SmallestT(r, len), FindT(l, b, len))
             ELSE Best(SmallestT(l, len), FindT(r, b, len))

(* what a trie holds, and the only trie that holds a set *)
Listing(n) == LET w == Walk(n) IN [i \in 1..Len(w) |-> w[i][1]]
ShapeS(x) == LET ps == PrefixList(x) IN Shape([p \in { ps[i] : i \in 1..Len(ps) } |-> 0])
=============================================================================
