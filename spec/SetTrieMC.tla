------------------------------ MODULE SetTrieMC ------------------------------
(***************************************************************************)
(* Every pair of sets of a small space: what the tries of SetTrie hold     *)
(* after an operation is what AddrSets says, as the canonical list; the    *)
(* shape is the only one; no node changes; what is kept in memory is in    *)
(* proportion to the list; one prefix costs its path (C13, C14, C17, C18,  *)
(* C28).  The second set may share nodes with the first one, as versions   *)
(* of one set do.                                                          *)
(***************************************************************************)
EXTENDS SetTrie
CONSTANT NL
VARIABLES X, Y, a, b, c, phase
vars == <<X, Y, a, b, c, phase>>

U == Addresses(NL)
WW == NL * B
RECURSIVE Sorted(_)
Sorted(Z) == IF Z = {} THEN <<>>
             ELSE LET s == CHOOSE s \in Z : \A t \in Z : Le(s, t) IN << <<s, s>> >> \o Sorted(Z \ {s})
Canon(Z) == Coalesce(Sorted(Z))

(* number the nodes; those in the set kn of nodes known before keep their numbers *)
RECURSIVE Number(_, _, _)
Number(s, k, kn) ==
    IF s = Nil THEN [n |-> Nil, c |-> k]
    ELSE IF \E y \in kn : Bare(y) = s THEN [n |-> CHOOSE y \in kn : Bare(y) = s, c |-> k]
    ELSE LET l == Number(s[4], k, kn)  r == Number(s[5], l.c, kn) IN Node(r.c, s[1], s[2], s[3], l.n, r.n)

Init == /\ X \in SUBSET U /\ Y = {} /\ b = Nil /\ phase = 0
        /\ LET x == Number(ShapeS(Canon(X)), 1, {}) IN a = x.n /\ c = x.c
Next == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED <<X, a>>
        /\ Y' \in SUBSET U
        /\ \E kn \in {{}, Nodes(a)} :
              LET y == Number(ShapeS(Canon(Y')), c, kn) IN b' = y.n /\ c' = y.c

x == Canon(X)
y == Canon(Y)
OneId(n, m) == \A p \in Nodes(n) : \A q \in Nodes(m) : Id(p) = Id(q) => p = q
Lean(n) == Cardinality(Nodes(n)) <= IF n = Nil THEN 0 ELSE 2 * Len(Walk(n)) - 1
Good(r, z) == /\ Listing(r.n) = PrefixList(z)
              /\ Bare(r.n) = ShapeS(z)
              /\ Lean(r.n)
              /\ OneId(r.n, r.n) /\ OneId(r.n, a) /\ OneId(r.n, b)
              /\ (IF r.n = Nil THEN 0 ELSE Id(r.n)) < r.c
Algebra == /\ Good(UnionT(a, b, c), Union(x, y))
           /\ Good(MinusT(a, b, c), Minus(x, y))
           /\ Good(InterT(a, b, c), Inter(x, y))
(* containment, as the library decides it; equality by shape *)
Inclusion == /\ (MinusT(b, a, c).n = Nil) = Subset(y, x)
             /\ (Bare(a) = Bare(b)) = (x = y)
(* nothing to do: nothing new *)
Idle == /\ Id(UnionT(a, a, c).n) = Id(a)
        /\ MinusT(a, a, c).n = Nil
        /\ (Inter(x, y) = Empty => Id(MinusT(a, b, c).n) = Id(a))
(* allocation *)
Allocation == \A l \in 0..WW :
                LET p == FindT(a, b, l) IN
                IF p = NoMatch THEN ~CanAlloc(x, y, l) ELSE p[2] <= l /\ BestFit(x, y, l, <<Net(p[1], l), l>>)
(* one prefix more or less: at most two new nodes on every level; every range *)
New(r) == Cardinality({ z \in Nodes(r.n) : Id(z) >= c })
Paths == phase = 0 => \A p \in AllPrefixes(NL) :
            LET q == Leaf(c, p)
                u == UnionT(a, q.n, q.c)
                m == MinusT(a, q.n, q.c)
            IN  /\ Listing(u.n) = PrefixList(Union(x, PrefixSet(p)))
                /\ Listing(m.n) = PrefixList(Minus(x, PrefixSet(p)))
                /\ New(u) <= WW + 2 /\ New(m) <= 2 * WW
Ranges == (phase = 0 /\ X = {}) => \A lo \in U : \A hi \in U : Le(lo, hi) => Good(RangeT(lo, hi, c), RangeSet(lo, hi))
=============================================================================
