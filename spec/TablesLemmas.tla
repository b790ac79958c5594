---------------------------- MODULE TablesLemmas ----------------------------
(***************************************************************************)
(* The operators of Tables that trace validation uses, against their plain *)
(* meaning over all addresses, on every pair of tables of a small space of *)
(* N limbs of B bits with values 1..V under comparison M0.                 *)
(***************************************************************************)
EXTENDS Tables
CONSTANTS N, V, M0
P == AllPrefixes(N)
A == Addresses(N)
AddrsOf(p) == { a \in A : HasAddr(p, a) }
Tabs == UNION { [K -> 1..V] : K \in SUBSET P }
VARIABLES f, g
Init == f \in Tabs /\ g = <<>>
Next == g = <<>> /\ g' \in Tabs /\ UNCHANGED f
t == [m |-> M0, f |-> f]
u == [m |-> M0, f |-> g]

(* prefixes are the sets of their addresses *)
ASSUME \A p, q \in P : Covers(p, q) <=> AddrsOf(q) \subseteq AddrsOf(p)
ASSUME \A p, q \in P : p # q => AddrsOf(p) # AddrsOf(q)
ASSUME \A p \in P : p[2] < N*B => /\ AddrsOf(Halves(p)[1]) \cup AddrsOf(Halves(p)[2]) = AddrsOf(p)
                                  /\ AddrsOf(Halves(p)[1]) \cap AddrsOf(Halves(p)[2]) = {}
ASSUME \A p \in P : p[2] > 0 => /\ AddrsOf(Parent(p)) = AddrsOf(p) \cup AddrsOf(Sibling(p))
                                /\ Sibling(p) # p
ASSUME \A p \in P : LET S == AddrsOf(p) IN /\ First(p) \in S /\ LastOf(p) \in S
                                           /\ \A a \in S : Le(First(p), a) /\ Le(a, LastOf(p))
(* the order is the order of the bit strings *)
BitsOf(p) == [i \in 1..p[2] |-> Bit(p[1], i)]
Lex(x, y) == \/ \E i \in 0..Len(x) : i <= Len(y) /\ SubSeq(x, 1, i) = SubSeq(y, 1, i) /\
                   \/ i = Len(x) /\ Len(y) > i
                   \/ i < Len(x) /\ i < Len(y) /\ x[i+1] < y[i+1]
ASSUME \A p, q \in P : PLt(p, q) <=> Lex(BitsOf(p), BitsOf(q))
ASSUME \A a \in A, l \in 0..(N*B) : \A i \in 1..(N*B) :
          /\ Bit(Net(a, l), i) = (IF i <= l THEN Bit(a, i) ELSE 0)
          /\ Bit(Host(a, l), i) = (IF i <= l THEN 0 ELSE Bit(a, i))
          /\ Bit(LastA(a, l), i) = (IF i <= l THEN Bit(a, i) ELSE 1)
          /\ Bit(Mask(N, l), i) = (IF i <= l THEN 1 ELSE 0)

(* rounds of the same modifications: the third and the fourth start from the same table, so all later ones are like the *)
(* third (keys are independent of each other; one of them is enough)                                                    *)
Key == CHOOSE p \in P : p[2] = 0
Calls == { <<o, v>> : o \in {"ins", "upd", "iou", "goi", "rem"}, v \in 1..V }
Does(x, c) == CASE c[1] = "ins" -> Insert(x, Key, c[2]).t
                [] c[1] = "upd" -> Update(x, Key, c[2]).t
                [] c[1] = "iou" -> InsertOrUpdate(x, Key, c[2]).t
                [] c[1] = "goi" -> GetOrInsert(x, Key, c[2]).t
                [] c[1] = "rem" -> Remove(x, Key).t
RECURSIVE Round(_, _)
Round(x, s) == IF s = <<>> THEN x ELSE Round(Does(x, s[1]), Tail(s))
Seqs == { <<x>> : x \in Calls } \cup (Calls \X Calls) \cup (Calls \X Calls \X Calls)
ASSUME \A s \in Seqs : \A x \in {EmptyTable(M0)} \cup { Insert(EmptyTable(M0), Key, v).t : v \in 1..V } :
          LET y == Round(Round(x, s), s) IN Round(y, s) = y

(* longest match, over lengths *)
Longest == \A p \in P :
    LET c == { k \in DOMAIN f : AddrsOf(p) \subseteq AddrsOf(k) } IN
    IF c = {} THEN LPM(t, p) = NoMatch
    ELSE LPM(t, p) \in c /\ \A k \in c : Cardinality(AddrsOf(k)) >= Cardinality(AddrsOf(LPM(t, p)))
(* all lookups agree iff they agree where something starts or ends *)
Lookups == SameLookups(t, u, N) <=> \A a \in A : HostVal(t, a) = HostVal(u, a)
(* a listing is the sorted sequence, a beginning of one is one of its beginnings *)
Sorted == LET s == SortPfx(DOMAIN f) IN
          /\ IsListing(s, DOMAIN f)
          /\ \A n \in 0..Len(s) : IsPrefixListing(SubSeq(s, 1, n), DOMAIN f)
          /\ LET z == SortPfx(DOMAIN g) IN
             /\ IsListing(z, DOMAIN f) <=> z = s
             /\ IsPrefixListing(z, DOMAIN f) <=> (Len(z) <= Len(s) /\ z = SubSeq(s, 1, Len(z)))
(* the modifications are those of a map *)
Ops == \A p \in P : \A v \in 1..V :
    /\ Insert(t, p, v).t.f = (IF p \in DOMAIN f THEN f ELSE (p :> v) @@ f)
    /\ Remove(t, p).t.f = [k \in DOMAIN f \ {p} |-> f[k]]
    /\ LET x == InsertOrUpdate(t, p, v).t.f IN
       /\ DOMAIN x = DOMAIN f \cup {p}
       /\ Eqv(M0, x[p], v)
       /\ \A k \in DOMAIN f \ {p} : x[k] = f[k]
    /\ Update(t, p, v).t.f = (IF p \in DOMAIN f THEN InsertOrUpdate(t, p, v).t.f ELSE f)
    /\ GetOrInsert(t, p, v).t.f = Insert(t, p, v).t.f
(* what is not irreducible can do with fewer entries *)
Reduced == ~Irreducible(t) =>
       \/ \E k \in DOMAIN f : LET x == [t EXCEPT !.f = [j \in DOMAIN f \ {k} |-> f[j]]] IN \A a \in A : HostVal(x, a) = HostVal(t, a)
       \/ \E k \in DOMAIN f : k[2] > 0 /\ Sibling(k) \in DOMAIN f /\
             LET x == [t EXCEPT !.f = (Parent(k) :> f[k]) @@ [j \in DOMAIN f \ {k, Sibling(k)} |-> f[j]]] IN
             \A a \in A : HostVal(x, a) = HostVal(t, a)
=============================================================================
