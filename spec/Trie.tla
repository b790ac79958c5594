-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* The design under the tables: a path-compressed binary trie whose nodes  *)
(* are never changed once they can be seen.  A modification copies the     *)
(* nodes on its path and shares the rest, so that a version is a root, a   *)
(* version is free, and two versions are compared by comparing the         *)
(* identities of their nodes first.                                        *)
(*                                                                         *)
(* A node is <<id, prefix, active, value, left, right>>, Nil = <<>>.  Two  *)
(* nodes are shared iff they have one id.  TrieMC checks the operators for *)
(* every table of a small space, StoreMC runs Store and tries side by side.*)
(***************************************************************************)
EXTENDS Tables

Nil == <<>>
Id(n) == IF n = Nil THEN 0 ELSE n[1]
Pfx(n) == n[2]
Act(n) == n[3]
Value(n) == n[4]
Left(n) == n[5]
Right(n) == n[6]
Kid(n, d) == IF d = 0 THEN Left(n) ELSE Right(n)

(* which side of p the longer prefix q lies on *)
Side(p, q) == Bit(q[1], p[2] + 1)
(* the longest prefix that covers both *)
RECURSIVE Common(_, _, _)
Common(p, q, l) == IF l < p[2] /\ l < q[2] /\ Bit(p[1], l+1) = Bit(q[1], l+1) THEN Common(p, q, l+1) ELSE l
Join(p, q) == LET l == Common(p, q, 0) IN <<Net(p[1], l), l>>

(* new nodes are numbered from the counter c: every construction returns   *)
(* [n |-> node, c |-> the next counter, ...]                               *)
CONSTANT Variant         \* "design", or a broken design that the invariants must reject
Node(c, p, a, v, l, r) == [n |-> <<c, p, a, v, l, r>>, c |-> c + 1]
Again(c, n, a, v, l, r) == IF Variant = "in place" THEN [n |-> <<Id(n), Pfx(n), a, v, l, r>>, c |-> c]
                           ELSE Node(c, Pfx(n), a, v, l, r)
WithKid(c, n, d, k) == IF d = 0 THEN Again(c, n, Act(n), Value(n), k, Right(n))
                       ELSE Again(c, n, Act(n), Value(n), Left(n), k)
Kept(x, y) == Id(x) = Id(y) /\ Variant # "copies" /\ x = y

(* put p (masked) -> v, or only if absent (over = FALSE), or only if present (ins = FALSE) *)
RECURSIVE Set(_, _, _, _, _, _, _)
Set(m, n, c, p, v, ins, over) ==
    LET same == [n |-> n, c |-> c] IN
    IF n = Nil THEN (IF ins THEN Node(c, p, TRUE, v, Nil, Nil) ELSE same)
    ELSE IF Pfx(n) = p THEN
        (IF Act(n) THEN (IF over /\ ~Eqv(m, Value(n), v) THEN Again(c, n, TRUE, v, Left(n), Right(n)) ELSE same)
                   ELSE (IF ins THEN Again(c, n, TRUE, v, Left(n), Right(n)) ELSE same))
    ELSE IF Covers(Pfx(n), p) THEN
        LET d == Side(Pfx(n), p)  k == Set(m, Kid(n, d), c, p, v, ins, over) IN
        IF Kept(k.n, Kid(n, d)) THEN same ELSE WithKid(k.c, n, d, k.n)
    ELSE IF ~ins THEN same
    ELSE IF Covers(p, Pfx(n)) THEN
        (IF Side(p, Pfx(n)) = 0 THEN Node(c, p, TRUE, v, n, Nil) ELSE Node(c, p, TRUE, v, Nil, n))
    ELSE LET j == Join(p, Pfx(n))  x == Node(c, p, TRUE, v, Nil, Nil) IN
         IF Side(j, p) = 0 THEN Node(x.c, j, FALSE, 0, x.n, n) ELSE Node(x.c, j, FALSE, 0, n, x.n)

(* a node that is not active and has one child or none is not kept *)
Tidy(c, p, l, r) == IF Variant = "untidy" THEN Node(c, p, FALSE, 0, l, r) ELSE IF l = Nil THEN [n |-> r, c |-> c] ELSE IF r = Nil THEN [n |-> l, c |-> c]
                    ELSE Node(c, p, FALSE, 0, l, r)
RECURSIVE Del_(_, _, _)
Del_(n, c, p) ==
    LET same == [n |-> n, c |-> c] IN
    IF n = Nil THEN same
    ELSE IF Pfx(n) = p THEN (IF Act(n) THEN Tidy(c, p, Left(n), Right(n)) ELSE same)
    ELSE IF ~Covers(Pfx(n), p) THEN same
    ELSE LET d == Side(Pfx(n), p)  k == Del_(Kid(n, d), c, p) IN
         IF Kept(k.n, Kid(n, d)) THEN same
         ELSE IF Act(n) THEN WithKid(k.c, n, d, k.n)
         ELSE IF d = 0 THEN Tidy(k.c, Pfx(n), k.n, Right(n)) ELSE Tidy(k.c, Pfx(n), Left(n), k.n)

(* what a trie holds, in the order of a walk *)
RECURSIVE Walk(_)
Walk(n) == IF n = Nil THEN <<>>
           ELSE (IF Act(n) THEN << <<Pfx(n), Value(n)>> >> ELSE <<>>) \o Walk(Left(n)) \o Walk(Right(n))
Holds(n) == LET w == Walk(n) IN [k \in { w[i][1] : i \in 1..Len(w) } |-> w[CHOOSE i \in 1..Len(w) : w[i][1] = k][2]]

RECURSIVE Match(_, _, _)
Match(n, p, best) == IF n = Nil \/ ~Covers(Pfx(n), p) THEN best
                     ELSE LET b == IF Act(n) THEN Pfx(n) ELSE best IN
                          IF Pfx(n)[2] = p[2] THEN b ELSE Match(Kid(n, Side(Pfx(n), p)), p, b)

(* the trie of given contents, without ids *)
RECURSIVE Shape(_)
Shape(f) ==
    LET K == DOMAIN f IN
    IF K = {} THEN <<>>
    ELSE LET p0 == CHOOSE k \in K : TRUE
             l == CHOOSE x \in 0..p0[2] : (\A k \in K : Covers(<<Net(p0[1], x), x>>, k))
                                       /\ (x = p0[2] \/ ~\A k \in K : Covers(<<Net(p0[1], x+1), x+1>>, k))
             top == <<Net(p0[1], l), l>>
             On(d) == { k \in K : k # top /\ Side(top, k) = d }
         IN  <<top, top \in K, IF top \in K THEN f[top] ELSE 0,
               Shape([k \in On(0) |-> f[k]]), Shape([k \in On(1) |-> f[k]])>>
RECURSIVE Bare(_)
Bare(n) == IF n = Nil THEN Nil ELSE <<Pfx(n), Act(n), Value(n), Bare(Left(n)), Bare(Right(n))>>

RECURSIVE Nodes(_)
Nodes(n) == IF n = Nil THEN {} ELSE {n} \cup Nodes(Left(n)) \cup Nodes(Right(n))

(* the diff of two tries: reports [k, kind] in order, and which prefixes had their values compared *)
All(n, kind) == LET w == Walk(n) IN [i \in 1..Len(w) |-> <<w[i][1], kind>>]
None == [r |-> <<>>, cmp |-> {}]
Seq2(x, y) == [r |-> x.r \o y.r, cmp |-> x.cmp \cup y.cmp]
Own(n, kind) == [r |-> IF Act(n) THEN << <<Pfx(n), kind>> >> ELSE <<>>, cmp |-> {}]
RECURSIVE Diff(_, _, _)
Diff(m, a, b) ==
    IF Id(a) = Id(b) /\ (Variant # "deep" \/ a = Nil) THEN [r |-> All(a, "S"), cmp |-> {}]
    ELSE IF a = Nil THEN [r |-> All(b, "R"), cmp |-> {}]
    ELSE IF b = Nil THEN [r |-> All(a, "L"), cmp |-> {}]
    ELSE IF Pfx(a) = Pfx(b) THEN
        LET own == IF Act(a) /\ Act(b)
                   THEN [r |-> << <<Pfx(a), IF Eqv(m, Value(a), Value(b)) THEN "S" ELSE "C">> >>, cmp |-> {Pfx(a)}]
                   ELSE IF Act(a) THEN Own(a, "L") ELSE Own(b, "R")
        IN  Seq2(own, Seq2(Diff(m, Left(a), Left(b)), Diff(m, Right(a), Right(b))))
    ELSE IF Covers(Pfx(a), Pfx(b)) THEN
        Seq2(Own(a, "L"), IF Side(Pfx(a), Pfx(b)) = 0
                          THEN Seq2(Diff(m, Left(a), b), Diff(m, Right(a), Nil))
                          ELSE Seq2(Diff(m, Left(a), Nil), Diff(m, Right(a), b)))
    ELSE IF Covers(Pfx(b), Pfx(a)) THEN
        Seq2(Own(b, "R"), IF Side(Pfx(b), Pfx(a)) = 0
                          THEN Seq2(Diff(m, a, Left(b)), Diff(m, Nil, Right(b)))
                          ELSE Seq2(Diff(m, Nil, Left(b)), Diff(m, a, Right(b))))
    ELSE IF PLt(Pfx(a), Pfx(b)) THEN Seq2([r |-> All(a, "L"), cmp |-> {}], [r |-> All(b, "R"), cmp |-> {}])
    ELSE Seq2([r |-> All(b, "R"), cmp |-> {}], [r |-> All(a, "L"), cmp |-> {}])

(* mapping: a node none of whose values change is kept *)
RECURSIVE MapT(_, _, _, _)
MapT(m, n, c, g) ==
    IF n = Nil THEN [n |-> Nil, c |-> c]
    ELSE LET l == MapT(m, Left(n), c, g)
             r == MapT(m, Right(n), l.c, g)
             v == IF Act(n) /\ ~Eqv(m, g[Value(n)], Value(n)) THEN g[Value(n)] ELSE Value(n)
         IN  IF Id(l.n) = Id(Left(n)) /\ Id(r.n) = Id(Right(n)) /\ v = Value(n) THEN [n |-> n, c |-> c]
             ELSE Node(r.c, Pfx(n), Act(n), v, l.n, r.n)

(* aggregation: an entry that repeats the entry over it goes, and two      *)
(* halves of one prefix that carry one value are replaced by the whole.    *)
(* Bottom up: x is the value class over n (-1: none)                       *)
Half(p, q) == q[2] = p[2] + 1
RECURSIVE Agg(_, _, _, _)
Agg(m, n, c, x) ==
    IF n = Nil THEN [n |-> Nil, c |-> c]
    ELSE LET y == IF Act(n) THEN Cls(m, Value(n)) ELSE x
             l == Agg(m, Left(n), c, y)
             r == Agg(m, Right(n), l.c, y)
             both == /\ l.n # Nil /\ r.n # Nil /\ Act(l.n) /\ Act(r.n)
                     /\ Half(Pfx(n), Pfx(l.n)) /\ Half(Pfx(n), Pfx(r.n))
                     /\ Eqv(m, Value(l.n), Value(r.n))
         IN  IF both
             THEN (* the whole is decided by its halves, whatever it was *)
                  LET v == Value(l.n)
                      Under(h) == <<Left(h), Right(h)>>
                      \* the halves, no longer entries
                      lt == Tidy(r.c, Pfx(l.n), Left(l.n), Right(l.n))
                      rt == Tidy(lt.c, Pfx(r.n), Left(r.n), Right(r.n))
                  IN  IF Cls(m, v) = x THEN Tidy(rt.c, Pfx(n), lt.n, rt.n)
                      ELSE Node(rt.c, Pfx(n), TRUE, v, lt.n, rt.n)
             ELSE IF Act(n) /\ Cls(m, Value(n)) # x
                  THEN (IF Id(l.n) = Id(Left(n)) /\ Id(r.n) = Id(Right(n)) THEN [n |-> n, c |-> r.c]
                        ELSE Node(r.c, Pfx(n), TRUE, Value(n), l.n, r.n))
             ELSE IF l.n # Nil /\ r.n # Nil /\ ~Act(n) /\ Id(l.n) = Id(Left(n)) /\ Id(r.n) = Id(Right(n))
                  THEN [n |-> n, c |-> r.c]
             ELSE Tidy(r.c, Pfx(n), l.n, r.n)
=============================================================================
