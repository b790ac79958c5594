------------------------------- MODULE TrieMC -------------------------------
(***************************************************************************)
(* Every table over a small space through every sequence of Depth          *)
(* modifications: the tries refine Tables in what they hold, the results   *)
(* of the calls, lookups, walks, diffs, maps and aggregates; their shape   *)
(* is the only one for what they hold; old versions stay; what is shared   *)
(* (C25) and what is new (C28).                                            *)
(***************************************************************************)
EXTENDS Trie
CONSTANTS Depth, M0, V      \* modifications; the comparison; the values 1..V
VARIABLES old, new, c, touched, was, t, u, d
vars == <<old, new, c, touched, was, t, u, d>>

P == AllPrefixes(1)
RECURSIVE Number(_, _)
Number(s, k) == IF s = Nil THEN [n |-> Nil, c |-> k]
                ELSE LET l == Number(s[4], k)  r == Number(s[5], l.c) IN Node(r.c, s[1], s[2], s[3], l.n, r.n)
Tab(f) == [m |-> M0, f |-> f]
TypeInit == UNION { [K -> 1..V] : K \in SUBSET P }
Init == \E f \in TypeInit :
            LET x == Number(Shape(f), 1) IN
            /\ old = x.n /\ new = x.n /\ c = x.c /\ t = Tab(f) /\ u = Tab(f)
            /\ touched = {} /\ was = 0 /\ d = 0

Step(x, y, p) == /\ new' = x.n /\ c' = x.c /\ u' = y
                 /\ touched' = IF y = u THEN touched ELSE touched \cup {p}
                 /\ was' = c
                 /\ d' = d + 1
                 /\ UNCHANGED <<old, t>>
Next == /\ d < Depth
        /\ \E p \in P :
           \/ \E v \in 1..V :
                 \/ Step(Set(M0, new, c, p, v, TRUE, FALSE), Insert(u, p, v).t, p)
                 \/ Step(Set(M0, new, c, p, v, FALSE, TRUE), Update(u, p, v).t, p)
                 \/ Step(Set(M0, new, c, p, v, TRUE, TRUE), InsertOrUpdate(u, p, v).t, p)
           \/ Step(Del_(new, c, p), Remove(u, p).t, p)
Spec == Init /\ [][Next]_vars

(* refinement of Tables *)
Refines == Holds(new) = u.f
Listed  == LET w == Walk(new) IN IsListing([i \in 1..Len(w) |-> w[i][1]], DOMAIN u.f)
Looked  == \A p \in P : Match(new, p, NoMatch) = LPM(u, p)
(* the shape depends on nothing but the contents *)
Canonical == Bare(new) = Shape(u.f)
(* an older version is what it was: no id has two meanings *)
Persistent == /\ Holds(old) = t.f
              /\ \A x \in Nodes(old) : \A y \in Nodes(new) : Id(x) = Id(y) => x = y
(* what is shared and what is new *)
Unmodified == (d > 0 /\ touched = {}) => Id(old) = Id(new)
PathCopy == d > 0 => Cardinality({ x \in Nodes(new) : Id(x) >= was }) <= B + 2
Lean(n, f) == Cardinality(Nodes(n)) <= 2 * Cardinality(DOMAIN f)
Retained == Lean(new, u.f)
(* the diff is the tables' and compares only what covers a modification *)
DiffOf(a, b, x, y) ==
    LET z == Diff(M0, a, b)  ks == [i \in 1..Len(z.r) |-> z.r[i][1]] IN
    /\ IsListing(ks, DOMAIN x.f \cup DOMAIN y.f)
    /\ \A i \in 1..Len(ks) : z.r[i][2] = DiffKind(x, y, ks[i])
Diffs == /\ DiffOf(old, new, t, u)
         /\ DiffOf(new, old, u, t)
         /\ \A p \in Diff(M0, old, new).cmp : \E q \in touched : Covers(p, q)
(* maps and aggregates *)
Maps == \A g \in [1..V -> 1..V] :
           LET x == MapT(M0, new, c, g) IN
           /\ DOMAIN Holds(x.n) = DOMAIN u.f
           /\ \A k \in DOMAIN u.f : Eqv(M0, Holds(x.n)[k], g[u.f[k]])
           /\ (\A k \in DOMAIN u.f : Eqv(M0, u.f[k], g[u.f[k]])) => Id(x.n) = Id(new)
           /\ Bare(x.n) = Shape(Holds(x.n))
Aggregates ==
    LET x == Agg(M0, new, c, -1)  y == Tab(Holds(x.n)) IN
    /\ IsAggregate(u, y, 1)
    /\ Irreducible(y)
    /\ Bare(x.n) = Shape(y.f)
    /\ Agg(M0, x.n, x.c, -1).n = x.n
    /\ Lean(x.n, y.f)
=============================================================================
