------------------------------ MODULE StoreMC -------------------------------
(***************************************************************************)
(* Store and its design, side by side: next to every table and cell of     *)
(* Store there is the trie (Trie.tla) that the same calls built, and next  *)
(* to every set its trie (SetTrie.tla).  Checked: the tries hold what      *)
(* Store says, a set's in the one shape there is for it; immutable objects never change and keep their tries;   *)
(* a modification through one handle is seen through exactly the copies of *)
(* that handle; a diff of any two tables compares no more than CmpBound    *)
(* allows, which is what trace validation demands of the real code (C25).  *)
(***************************************************************************)
EXTENDS Store, SetTrie
LOCAL INSTANCE Randomization
CONSTANTS Steps, Objects, SetObjects, V, Weight
(* all choices, for an exhaustive exploration; one of them (PickOne), for random long behaviours *)
Pick(X) == X
PickOne(X) == IF X = {} THEN {} ELSE RandomSubset(1, X)
VARIABLES TT, TC, TS, TD, c, last     \* the tries of T, C, S, D
tt == <<TT, TC>>
ts == <<TS, TD>>
vars == <<svars, tt, ts, c, last>>
P == AllPrefixes(1)

Init == StoreInit /\ TT = <<>> /\ TC = <<>> /\ TS = <<>> /\ TD = <<>> /\ c = 1 /\ last = 0

(* the cell that a step writes: 0 none *)
Ro == last' = 0 /\ UNCHANGED c
New == /\ Len(C) < Objects /\ \E m \in Pick({0, 2}) : NewTable(m)
       /\ TC' = Append(TC, Nil) /\ UNCHANGED TT /\ Ro
Zero0 == /\ Len(H) < Objects + 1 /\ (\A h \in 1..Len(H) : H[h] # 0) /\ ZeroMutTable /\ UNCHANGED <<TT, TC>> /\ Ro
Snap == /\ Len(T) < Objects
        /\ \E h \in Pick(1..Len(H)) : /\ Snapshot(h)
                                /\ TT' = Append(TT, IF H[h] = 0 THEN Nil ELSE TC[H[h]])
        /\ UNCHANGED TC /\ Ro
Clone == /\ Len(C) < Objects
         /\ \E i \in Pick(1..Len(T)) : CloneTable(i) /\ TC' = Append(TC, TT[i])
         /\ UNCHANGED TT /\ Ro
Copy == /\ Len(H) < Objects + 1 /\ \E h \in Pick(1..Len(H)) : CopyHandle(h)
        /\ UNCHANGED <<TT, TC>> /\ Ro
TrieOp(m, n, o, p, v) == CASE o = "ins" -> Set(m, n, c, p, v, TRUE, FALSE)
                           [] o = "goi" -> Set(m, n, c, p, v, TRUE, FALSE)
                           [] o = "upd" -> Set(m, n, c, p, v, FALSE, TRUE)
                           [] o = "iou" -> Set(m, n, c, p, v, TRUE, TRUE)
                           [] o = "rem" -> Del_(n, c, p)
Mod(n) == \E h \in Pick(1..Len(H)) : \E o \in Pick({"ins", "goi", "upd", "iou", "rem"}) : \E p \in Pick(P) : \E v \in Pick(1..V) :
       /\ IF H[h] = 0 THEN ModifyZeroTable(h) /\ UNCHANGED <<TT, TC>> /\ Ro
          ELSE /\ ModifyTable(h, o, p, v)
               /\ LET x == TrieOp(C[H[h]].m, TC[H[h]], o, p, v) IN
                  TC' = [TC EXCEPT ![H[h]] = x.n] /\ c' = x.c
               /\ last' = H[h] /\ UNCHANGED TT
Fns == {<<>>, <<1, 0, 0>>, <<0, 0, 2>>, <<1, 0, 1>>, <<0, 1, 1>>}
(* the trie of a mapped table, by prefix *)
RECURSIVE MapP(_, _, _, _)
MapP(m, n, k, fn) ==
    IF n = Nil THEN [n |-> Nil, c |-> k]
    ELSE LET l == MapP(m, Left(n), k, fn)
             r == MapP(m, Right(n), l.c, fn)
             w == IF Act(n) THEN MapFn(fn, m, Pfx(n), Value(n)) ELSE 0
             v == IF Act(n) /\ ~Eqv(m, w, Value(n)) THEN w ELSE Value(n)
         IN  IF Kept(l.n, Left(n)) /\ Kept(r.n, Right(n)) /\ v = Value(n) THEN [n |-> n, c |-> r.c]
             ELSE Node(r.c, Pfx(n), Act(n), v, l.n, r.n)
Map == /\ Len(T) < Objects
       /\ \E i \in Pick(1..Len(T)) : \E fn \in Pick(Fns) :
             /\ MapTable(i, fn)
             /\ LET x == IF fn = <<>> THEN [n |-> TT[i], c |-> c] ELSE MapP(T[i].m, TT[i], c, fn) IN
                TT' = Append(TT, x.n) /\ c' = x.c
       /\ UNCHANGED TC /\ last' = 0
Aggregate == /\ Len(T) < Objects
             /\ \E i \in Pick(1..Len(T)) :
                   LET x == Agg(T[i].m, TT[i], c, -1) IN
                   /\ AggregateTable(i, [m |-> T[i].m, f |-> Holds(x.n)], 1)
                   /\ TT' = Append(TT, x.n) /\ c' = x.c
             /\ UNCHANGED TC /\ last' = 0
BuildIt == /\ Len(T) < Objects
           /\ \E i \in Pick(1..Len(T)) : \E h \in Pick(1..Len(H)) : \E ok \in BOOLEAN :
                 /\ BuildEnd(i, h, ok)
                 /\ TT' = Append(TT, IF ~ok THEN TT[i] ELSE IF H[h] = 0 THEN Nil ELSE TC[H[h]])
           /\ UNCHANGED TC /\ Ro
(* sets: every operation over a small space, next to tables *)
U1 == { RangeSet(r[1], r[2]) : r \in { q \in Addresses(1) \X Addresses(1) : Le(q[1], q[2]) } } \cup {Empty}
TrieAt(h) == IF G[h] = 0 THEN Nil ELSE TD[G[h]]
SetMod == \E h \in Pick(1..Len(G)) : \E o \in Pick({"ins", "rem"}) : \E v \in Pick(U1) :
          IF G[h] = 0 THEN ModifyZeroSet(h) /\ UNCHANGED ts /\ Ro
          ELSE /\ ModifySet(h, o, v)
               /\ LET q == IF v = Empty THEN Same(Nil, c) ELSE RangeT(v[1][1], v[1][2], c)
                      x == IF o = "ins" THEN UnionT(TD[G[h]], q.n, q.c) ELSE MinusT(TD[G[h]], q.n, q.c)
                  IN  TD' = [TD EXCEPT ![G[h]] = x.n] /\ c' = x.c
               /\ UNCHANGED TS /\ last' = 0
SetOps == \E i, j \in Pick(1..Len(S)) : \E o \in Pick({"u", "i", "d"}) :
             /\ AddSet(SetAlgebra(o, S[i], S[j]))
             /\ LET x == CASE o = "u" -> UnionT(TS[i], TS[j], c)
                           [] o = "i" -> InterT(TS[i], TS[j], c)
                           [] o = "d" -> MinusT(TS[i], TS[j], c)
                IN  TS' = Append(TS, x.n) /\ c' = x.c
             /\ UNCHANGED TD /\ last' = 0
SetStep == /\ \/ Len(G) < SetObjects /\ NewSet /\ TD' = Append(TD, Nil) /\ UNCHANGED TS /\ Ro
              \/ Len(G) < SetObjects /\ (\A h \in 1..Len(G) : G[h] # 0) /\ ZeroMutSet /\ UNCHANGED ts /\ Ro
              \/ Len(S) < SetObjects /\ \E h \in Pick(1..Len(G)) : SnapshotSet(h) /\ TS' = Append(TS, TrieAt(h)) /\ UNCHANGED TD /\ Ro
              \/ Len(S) < SetObjects /\ SetOps
              \/ Len(G) < SetObjects /\ \E s \in Pick(1..Len(S)) : CloneSet(s) /\ TD' = Append(TD, TS[s]) /\ UNCHANGED TS /\ Ro
              \/ Len(G) < SetObjects + 1 /\ \E h \in Pick(1..Len(G)) : CopySetHandle(h) /\ UNCHANGED ts /\ Ro
              \/ Len(S) < SetObjects /\ \E s \in Pick(1..Len(S)) : \E h \in Pick(1..Len(G)) : \E ok \in BOOLEAN :
                    BuildSetEnd(s, h, ok) /\ TS' = Append(TS, IF ok THEN TrieAt(h) ELSE TS[s]) /\ UNCHANGED TD /\ Ro
              \/ \E n \in 1..Weight : SetMod
           /\ UNCHANGED tt
TableStep == /\ (New \/ Zero0 \/ Snap \/ Clone \/ Copy \/ (\E n \in 1..Weight : Mod(n)) \/ Map \/ Aggregate \/ BuildIt)
             /\ UNCHANGED ts
Next == TableStep \/ SetStep
Bounded == TLCGet("level") <= Steps
Spec == Init /\ [][Next]_vars

Related(n, t) == \A k \in DOMAIN t.f : k \in DOMAIN Holds(n) /\ Eqv(t.m, Holds(n)[k], t.f[k])
(* a map may keep what is equal, so that the trie holds equal values *)
Refines == /\ \A i \in 1..Len(T) : Related(TT[i], T[i]) /\ DOMAIN Holds(TT[i]) = DOMAIN T[i].f
           /\ \A i \in 1..Len(C) : Related(TC[i], C[i]) /\ DOMAIN Holds(TC[i]) = DOMAIN C[i].f
SetsRefine == /\ \A i \in 1..Len(S) : Bare(TS[i]) = ShapeS(S[i])
              /\ \A i \in 1..Len(D) : Bare(TD[i]) = ShapeS(D[i])
(* no node has two meanings *)
EveryS == UNION { Nodes(TS[i]) : i \in 1..Len(TS) } \cup UNION { Nodes(TD[i]) : i \in 1..Len(TD) }
Every == UNION { Nodes(TT[i]) : i \in 1..Len(TT) } \cup UNION { Nodes(TC[i]) : i \in 1..Len(TC) }
OneMeaning == /\ \A x, y \in Every : Id(x) = Id(y) => x = y
              /\ \A x, y \in EveryS : Id(x) = Id(y) => x = y
CmpOK == \A i, j \in 1..Len(T) : T[i].m = T[j].m =>
            Cardinality(Diff(T[i].m, TT[i], TT[j]).cmp) <= CmpBound(T[i], T[j], LT[i], LT[j])
Immutable == [][/\ Len(T') >= Len(T) /\ \A i \in 1..Len(T) : T'[i] = T[i] /\ TT'[i] = TT[i]
                /\ Len(S') >= Len(S) /\ \A j \in 1..Len(S) : S'[j] = S[j] /\ TS'[j] = TS[j]]_vars
(* what is read through a handle changes only by a modification through a copy of it *)
Apart == [][\A h \in 1..Len(H) : H'[h] = H[h] /\ (TabOf("m", h)' # TabOf("m", h) => last' # 0 /\ H[h] = last')]_vars
SetsApart == [][\A i \in 1..Len(G) : G'[i] = G[i]
               /\ Cardinality({ j \in 1..Len(D) : D'[j] # D[j] }) <= 1]_vars
ZeroEmpty == \A h \in 1..Len(H) : H[h] = 0 => TabOf("m", h) = EmptyTable(0)
=============================================================================
