------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Tables: finite maps from masked prefixes to values.  A table is a       *)
(* record [m, f]: f is the function from masked prefixes to values and m   *)
(* names the value comparison: m = 0 is equality, m > 0 is equality modulo *)
(* m (the custom comparisons that the drivers install), m = Never is a     *)
(* comparison by which no value equals any, itself included.  Values are   *)
(* natural numbers.                                                        *)
(***************************************************************************)
EXTENDS Addr, TLC

NoFn == <<>>
EmptyTable(m) == [m |-> m, f |-> NoFn]

Never == -1
Cls(m, v)   == IF m <= 0 THEN v ELSE v % m
Eqv(m, x, y) == m # Never /\ Cls(m, x) = Cls(m, y)
(* x can be read where y was stored *)
Alike(m, x, y) == Cls(m, x) = Cls(m, y)

Keys(t)    == DOMAIN t.f
Has(t, p)  == Masked(p) \in DOMAIN t.f
Val(t, p)  == t.f[Masked(p)]
Put(t, p, v)  == [t EXCEPT !.f = (Masked(p) :> v) @@ t.f]
Del(t, p)     == [t EXCEPT !.f = [k \in DOMAIN t.f \ {Masked(p)} |-> t.f[k]]]

(* the modifications, each as the next table and the result of the call *)
Insert(t, p, v)  == IF Has(t, p) THEN [t |-> t, r |-> FALSE] ELSE [t |-> Put(t, p, v), r |-> TRUE]
(* an update with an equal value may keep the stored value: the two are equal to the table *)
Replace(t, p, v) == IF Eqv(t.m, Val(t, p), v) THEN t ELSE Put(t, p, v)
Update(t, p, v)  == IF Has(t, p) THEN [t |-> Replace(t, p, v), r |-> TRUE] ELSE [t |-> t, r |-> FALSE]
InsertOrUpdate(t, p, v) == [t |-> IF Has(t, p) THEN Replace(t, p, v) ELSE Put(t, p, v), r |-> TRUE]
GetOrInsert(t, p, v) == IF Has(t, p) THEN [t |-> t, r |-> Val(t, p)] ELSE [t |-> Put(t, p, v), r |-> v]
Remove(t, p)     == IF Has(t, p) THEN [t |-> Del(t, p), r |-> TRUE] ELSE [t |-> t, r |-> FALSE]

(* longest match: the most specific entry covering the query, or NoMatch *)
NoMatch == <<>>
Covering(t, p) == { k \in DOMAIN t.f : Covers(k, p) }
LPM(t, p) == LET c == Covering(t, p) IN
             IF c = {} THEN NoMatch ELSE CHOOSE k \in c : \A j \in c : j[2] <= k[2]
(* the value (class) a host lookup yields; -1 for none *)
HostVal(t, a) == LET k == LPM(t, HostPfx(a)) IN IF k = NoMatch THEN -1 ELSE Cls(t.m, t.f[k])

(* lexicographic listing *)
SortPfx(ks) == LET RECURSIVE Ins(_, _)
                   Ins(s, k) == IF s = <<>> THEN <<k>>
                                ELSE IF PLt(k, s[1]) THEN <<k>> \o s ELSE <<s[1]>> \o Ins(Tail(s), k)
                   RECURSIVE Go(_)
                   Go(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : TRUE IN Ins(Go(S \ {k}), k)
               IN  Go(ks)
(* k is the sequence of all keys, in order (a check, cheaper than sorting) *)
IsListing(ks, D) == /\ Len(ks) = Cardinality(D)
                    /\ \A i \in 1..Len(ks) : ks[i] \in D
                    /\ \A i \in 1..(Len(ks)-1) : PLt(ks[i], ks[i+1])
(* ks lists the first n keys in order *)
IsPrefixListing(ks, D) == /\ \A i \in 1..Len(ks) : ks[i] \in D
                          /\ \A i \in 1..(Len(ks)-1) : PLt(ks[i], ks[i+1])
                          /\ ks # <<>> => \A k \in D : PLt(k, ks[Len(ks)]) => \E i \in 1..Len(ks) : ks[i] = k

(* diff: how prefix k is classified between tables t and u *)
DiffKind(t, u, k) == IF k \notin DOMAIN u.f THEN "L"
                     ELSE IF k \notin DOMAIN t.f THEN "R"
                     ELSE IF Eqv(t.m, t.f[k], u.f[k]) THEN "S" ELSE "C"

(* where the piecewise constant function HostVal can change *)
Starts(K)  == { First(k) : k \in K } \cup
              { Succ(LastOf(k)) : k \in { x \in K : ~IsMax(LastOf(x)) } }
SameLookups(t, u, n) == \A a \in Starts(DOMAIN t.f \cup DOMAIN u.f) \cup {Zero(n)} :
                            HostVal(t, a) = HostVal(u, a)

(* the rules under which an aggregate must not be reducible *)
ProperCover(t, k) == LET c == { j \in DOMAIN t.f : j[2] < k[2] /\ Covers(j, k) } IN
                     IF c = {} THEN NoMatch ELSE CHOOSE x \in c : \A j \in c : j[2] <= x[2]
NoRedundant(t) == \A k \in DOMAIN t.f : LET c == ProperCover(t, k) IN
                     c = NoMatch \/ ~Eqv(t.m, t.f[c], t.f[k])
NoEqualSiblings(t) == \A k \in DOMAIN t.f : k[2] > 0 =>
                     (Sibling(k) \in DOMAIN t.f => ~Eqv(t.m, t.f[k], t.f[Sibling(k)]))
Irreducible(t) == NoRedundant(t) /\ NoEqualSiblings(t)

IsAggregate(t, u, n) == /\ u.m = t.m
                        /\ SameLookups(t, u, n)
                        /\ Cardinality(DOMAIN u.f) <= Cardinality(DOMAIN t.f)
                        (* what equals nothing is neither redundant nor merged *)
                        /\ t.m = Never => DOMAIN u.f = DOMAIN t.f
=============================================================================
