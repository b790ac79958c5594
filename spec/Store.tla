-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The library as a state machine over everything a program can hold:      *)
(*                                                                         *)
(*   T  immutable tables        S  immutable sets                          *)
(*   C  mutable table cells     D  mutable set cells                       *)
(*   H  mutable table handles   G  mutable set handles                     *)
(*                                                                         *)
(* Handles point at cells; copies of a handle share the cell; handle value *)
(* 0 is a zero-value (uninitialised) mutable object.  Immutable objects    *)
(* are values: no action ever changes an element of T or S once appended.  *)
(*                                                                         *)
(* Every call of the API is one action; the operators named R... give the  *)
(* result of the call in the state before it.  StoreTrace.tla binds these  *)
(* actions to the calls recorded from the real code, and the MC modules    *)
(* explore them exhaustively for small constants.                          *)
(*                                                                         *)
(* LT and LC record, for each table and cell, the modifications that led   *)
(* from the empty table to it, each as <<moment, prefixes it changed>>.    *)
(* Two tables share the structure that their common modifications built;   *)
(* CmpBound bounds what a diff of the two may have to look at.             *)
(***************************************************************************)
EXTENDS AddrSets, Tables

CONSTANT Sharing      \* maintain LT and LC?

VARIABLES T, C, H, S, D, G, LT, LC, clk
tvars == <<T, C, H, LT, LC, clk>>
avars == <<S, D, G>>
svars == <<T, C, H, S, D, G, LT, LC, clk>>

StoreInit == /\ T = <<>> /\ C = <<>> /\ H = <<>> /\ S = <<>> /\ D = <<>> /\ G = <<>>
             /\ LT = <<>> /\ LC = <<>> /\ clk = 0

-----------------------------------------------------------------------------
(* tables: handles *)

TabOf(k, h) == IF k = "t" THEN T[h]
               ELSE IF H[h] = 0 THEN EmptyTable(0) ELSE C[H[h]]

LogOf(k, h) == IF ~Sharing THEN <<>> ELSE IF k = "t" THEN LT[h]
               ELSE IF H[h] = 0 THEN <<>> ELSE LC[H[h]]
(* the prefixes whose entries differ between two functions, up to equality of values *)
Changed(t, u) == { k \in DOMAIN t.f \cup DOMAIN u.f : DiffKind(t, u, k) # "S" }
Logged(lg, t, u) == IF ~Sharing THEN lg
                    ELSE LET c == Changed(t, u) IN IF c = {} THEN lg ELSE Append(lg, <<clk, c>>)

RECURSIVE CommonFrom(_, _, _)
CommonFrom(x, y, i) == IF i > Len(x) \/ i > Len(y) THEN i - 1
                       ELSE IF x[i] = y[i] THEN CommonFrom(x, y, i+1) ELSE i - 1
(* the most value comparisons that a diff of tables t and u with logs x and y
   may make: one for each common entry that covers a prefix modified on either
   side since the two parted *)
(* the prefixes that calls which store a value touched on either side since then; aggregation may keep entries as they are *)
Stored(x, y) == LET n == CommonFrom(x, y, 1) IN
    UNION ({ x[i][2] : i \in { j \in (n+1)..Len(x) : Len(x[j]) = 2 } } \cup
           { y[i][2] : i \in { j \in (n+1)..Len(y) : Len(y[j]) = 2 } })
CmpBound(t, u, x, y) ==
    LET n == CommonFrom(x, y, 1)
        touched == UNION ({ x[i][2] : i \in (n+1)..Len(x) } \cup { y[i][2] : i \in (n+1)..Len(y) })
    IN  Cardinality({ k \in DOMAIN t.f \cap DOMAIN u.f : \E p \in touched : Covers(k, p) })

AddCell(t, lg) == /\ C' = Append(C, t) /\ H' = Append(H, Len(C) + 1) /\ LC' = Append(LC, lg)
                  /\ UNCHANGED <<T, LT, clk, avars>>
AddTable(t, lg) == /\ T' = Append(T, t) /\ LT' = Append(LT, lg) /\ clk' = clk + 1
                   /\ UNCHANGED <<C, H, LC, avars>>

NewTable(m)  == AddCell(EmptyTable(m), <<>>)
ZeroMutTable == H' = Append(H, 0) /\ UNCHANGED <<T, C, LT, LC, clk, avars>>
ZeroTable    == AddTable(EmptyTable(0), <<>>)
Snapshot(h)  == AddTable(TabOf("m", h), LogOf("m", h))
CloneTable(t) == AddCell(T[t], LogOf("t", t))
CopyHandle(h) == H' = Append(H, H[h]) /\ UNCHANGED <<T, C, LT, LC, clk, avars>>

(* tables: modifications through a handle *)
Modified(t, o, p, v) == CASE o = "ins" -> Insert(t, p, v)
                          [] o = "upd" -> Update(t, p, v)
                          [] o = "iou" -> InsertOrUpdate(t, p, v)
                          [] o = "goi" -> GetOrInsert(t, p, v)
                          [] o = "rem" -> Remove(t, p)
(* storing a value counts as a modification even if it equals the old one *)
Modifies(t, o, p) == CASE o \in {"ins", "goi"} -> ~Has(t, p)
                       [] o \in {"upd", "rem"} -> Has(t, p)
                       [] OTHER -> TRUE
LogMod(lg, t, o, p) == IF Sharing /\ Modifies(t, o, p) THEN Append(lg, <<clk, {Masked(p)}>>) ELSE lg
ModifyTable(h, o, p, v) == /\ H[h] # 0
                           /\ LET c == H[h]  u == Modified(C[c], o, p, v).t IN
                              /\ C' = [C EXCEPT ![c] = u]
                              /\ LC' = [LC EXCEPT ![c] = LogMod(@, C[c], o, p)]
                           /\ clk' = clk + 1
                           /\ UNCHANGED <<T, H, LT, avars>>
RModify(h, o, p, v) == Modified(C[H[h]], o, p, v).r
(* a run of modifications with the results they must have, folded from <<table, log, TRUE>>; the last part of *)
(* the result says whether every call returned what it must                                                 *)
RECURSIVE Run(_, _, _)
Run(acc, xs, i) ==
    IF i > Len(xs) \/ ~acc[3] THEN acc
    ELSE LET x == xs[i]  t == acc[1]  z == Modified(t, x.o, x.p, x.v) IN
         Run(<<z.t, LogMod(acc[2], t, x.o, x.p),
               IF x.o = "goi" THEN Alike(t.m, x.r, z.r) ELSE x.r = z.r>>, xs, i + 1)
RunTable(h, xs) == /\ H[h] # 0
                   /\ LET c == H[h]  z == Run(<<C[c], LC[c], TRUE>>, xs, 1) IN
                      /\ z[3]
                      /\ C' = [C EXCEPT ![c] = z[1]]
                      /\ LC' = [LC EXCEPT ![c] = z[2]]
                   /\ clk' = clk + 1
                   /\ UNCHANGED <<T, H, LT, avars>>
(* modifying a zero-value mutable object panics and changes nothing *)
ModifyZeroTable(h) == H[h] = 0 /\ UNCHANGED svars

(* Build: the callback works on a clone, then commits or aborts *)
BuildBegin(t) == CloneTable(t)
BuildEnd(t, h, commit) == IF commit THEN AddTable(TabOf("m", h), LogOf("m", h))
                          ELSE AddTable(T[t], LogOf("t", t))

(* a mapper is named by three numbers; it depends on the value (up to the   *)
(* table's comparison) and the prefix                                       *)
MapFn(fn, m, k, v) == (fn[1] * Cls(m, v) + fn[2] * k[2] + fn[3]) % 97
Mapped(t, fn) == IF fn = <<>> THEN t
                 ELSE [t EXCEPT !.f = [k \in DOMAIN t.f |-> MapFn(fn, t.m, k, t.f[k])]]
MapTable(t, fn) == LET u == Mapped(T[t], fn) IN
                   AddTable(u, IF fn = <<>> THEN LogOf("t", t) ELSE Logged(LogOf("t", t), T[t], u))
(* aggregation is a relation: any table u that is an aggregate of T[t] *)
AggregateTable(t, u, n) == /\ IsAggregate(T[t], u, n)
                           /\ AddTable(u, IF Sharing THEN Append(LogOf("t", t), <<clk, DOMAIN u.f, "agg">>) ELSE <<>>)

(* a call in which something of the caller's panics (a callback, a comparison, an argument) does nothing, *)
(* except that objects it already handed out (the clone in Build) exist                                  *)
Failed == UNCHANGED svars

-----------------------------------------------------------------------------
(* sets: operands are tagged; see SetVal *)

SetOf(k, h) == IF k = "s" THEN S[h] ELSE IF G[h] = 0 THEN Empty ELSE D[G[h]]
PlainSet(o) == CASE o.k = "nil" -> Empty
                 [] o.k = "a" -> AddrSet(o.a)
                 [] o.k = "p" -> PrefixSet(o.p)
                 [] o.k = "r" -> RangeSet(o.x, o.y)
                 [] o.k = "rs" -> Coalesce([i \in 1..Len(o.rs) |-> o.rs[i]])
SetVal(o) == IF o.k \in {"s", "m"} THEN SetOf(o.k, o.h) ELSE PlainSet(o)

NewSet       == /\ D' = Append(D, Empty) /\ G' = Append(G, Len(D) + 1) /\ UNCHANGED <<tvars, S>>
ZeroMutSet   == G' = Append(G, 0) /\ UNCHANGED <<tvars, S, D>>
AddSet(s)    == S' = Append(S, s) /\ UNCHANGED <<tvars, D, G>>
ZeroSet      == AddSet(Empty)
SnapshotSet(h) == AddSet(SetOf("m", h))
CloneSet(s)  == /\ D' = Append(D, S[s]) /\ G' = Append(G, Len(D) + 1) /\ UNCHANGED <<tvars, S>>
CopySetHandle(h) == G' = Append(G, G[h]) /\ UNCHANGED <<tvars, S, D>>

ModifySet(h, o, v) == /\ G[h] # 0
                      /\ D' = [D EXCEPT ![G[h]] = IF o = "ins" THEN Union(@, v) ELSE Minus(@, v)]
                      /\ UNCHANGED <<tvars, S, G>>
RECURSIVE RunSets(_, _, _)
RunSets(z, xs, i) == IF i > Len(xs) THEN z
                     ELSE LET v == PlainSet(xs[i].y) IN
                          RunSets(IF xs[i].o = "ins" THEN Union(z, v) ELSE Minus(z, v), xs, i + 1)
RunSet(h, xs) == /\ G[h] # 0
                 /\ D' = [D EXCEPT ![G[h]] = RunSets(@, xs, 1)]
                 /\ UNCHANGED <<tvars, S, G>>
ModifyZeroSet(h) == G[h] = 0 /\ UNCHANGED svars
BuildSetEnd(s, h, commit) == AddSet(IF commit THEN SetOf("m", h) ELSE S[s])

SetAlgebra(o, x, y) == CASE o = "u" -> Union(x, y)
                         [] o = "i" -> Inter(x, y)
                         [] o = "d" -> Minus(x, y)
=============================================================================
