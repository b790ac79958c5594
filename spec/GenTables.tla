----------------------------- MODULE GenTables ------------------------------
(***************************************************************************)
(* Enumerates every table over a space of B-bit addresses with values 1 and*)
(* 2, and every step from each, as JSON for the replayer (harness/cmd/rep),*)
(* which performs the same steps on the real code at every position of the *)
(* real address spaces.  Tables and keys are named by numbers: key i is    *)
(* the i-th prefix in lexicographic order; table c has value d at key i    *)
(* when digit i of c in base 3 is d (0: no entry).                         *)
(***************************************************************************)
EXTENDS Tables, Json, IOUtils

PK == SortPfx(AllPrefixes(1))
K == Len(PK)
P3 == [i \in 0..K |-> 3^i]
KeyNo == [p \in AllPrefixes(1) |-> CHOOSE i \in 1..K : PK[i] = p]
Digit(c, i) == (c \div P3[i-1]) % 3
TableOf(c) == [m |-> 0, f |-> [p \in { q \in AllPrefixes(1) : Digit(c, KeyNo[q]) > 0 } |-> Digit(c, KeyNo[p])]]
RECURSIVE Sum(_, _)
Sum(t, i) == IF i = 0 THEN 0 ELSE Sum(t, i-1) + (IF PK[i] \in DOMAIN t.f THEN t.f[PK[i]] * P3[i-1] ELSE 0)
CodeOf(t) == Sum(t, K)

Listing(t) == LET ks == SortPfx(DOMAIN t.f) IN [i \in 1..Len(ks) |-> <<KeyNo[ks[i]], t.f[ks[i]]>>]
Bool(b) == IF b THEN 1 ELSE 0
Step(x) == <<Bool(x.r), CodeOf(x.t)>>
StepV(x) == <<x.r, CodeOf(x.t)>>
Hosts == [a \in 0..(P2[B] - 1) |-> <<a>>]
Lookups(t) == [i \in 1..P2[B] |-> HostVal(t, Hosts[i-1])]
Funs == <<<<1, 2>>, <<2, 1>>, <<1, 1>>, <<2, 2>>>>
MapVals(t, g) == [t EXCEPT !.f = [k \in DOMAIN t.f |-> g[t.f[k]]]]

State(c) == LET t == TableOf(c) IN
    [ list |-> Listing(t),
      lpm  |-> [i \in 1..K |-> LET k == LPM(t, PK[i]) IN IF k = NoMatch THEN 0 ELSE KeyNo[k]],
      ins  |-> [i \in 1..K |-> [v \in 1..2 |-> Step(Insert(t, PK[i], v))]],
      upd  |-> [i \in 1..K |-> [v \in 1..2 |-> Step(Update(t, PK[i], v))]],
      iou  |-> [i \in 1..K |-> [v \in 1..2 |-> Step(InsertOrUpdate(t, PK[i], v))]],
      goi  |-> [i \in 1..K |-> [v \in 1..2 |-> StepV(GetOrInsert(t, PK[i], v))]],
      rem  |-> [i \in 1..K |-> Step(Remove(t, PK[i]))],
      map  |-> [g \in 1..4 |-> CodeOf(MapVals(t, Funs[g]))],
      look |-> Lookups(t),
      irr  |-> Bool(Irreducible(t)) ]
(* how one key is reported when it has value a on the left and b on the right *)
One(v) == [m |-> 0, f |-> IF v = 0 THEN <<>> ELSE (PK[1] :> v)]
Kinds == [a \in 1..3 |-> [b \in 1..3 |-> IF a = 1 /\ b = 1 THEN "-" ELSE DiffKind(One(a-1), One(b-1), PK[1])]]

VARIABLE c
Init == c = 0
Next == UNCHANGED c
Out == [keys   |-> [i \in 1..K |-> [len |-> PK[i][2], bits |-> [j \in 1..PK[i][2] |-> Bit(PK[i][1], j)],
                                    parent |-> IF PK[i][2] = 0 THEN 0 ELSE KeyNo[Parent(PK[i])]]],
        funs   |-> Funs,
        kinds  |-> Kinds,
        states |-> [i \in 1..P3[K] |-> State(i-1)]]
ASSUME JsonSerialize(IOEnv.GEN, Out)
=============================================================================
