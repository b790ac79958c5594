----------------------------- MODULE GiantTrace -----------------------------
(***************************************************************************)
(* Trace validation for Giant: one block per history, a mutable table and  *)
(* its snapshots, a mutable set and its snapshots.                         *)
(***************************************************************************)
EXTENDS Giant, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES blk, cur, T, D, S, mods, tid, l     \* mods counts the modifications since the filling
vars == <<blk, cur, T, D, S, mods, tid, l>>

NoBlk == [root |-> <<>>, len |-> 0, n |-> 0, s |-> 1]
TraceInit == /\ blk = NoBlk /\ cur = GFull(0, 0) /\ T = <<>> /\ D = GEmpty /\ S = <<>> /\ mods = 0
             /\ tid \in 1..Len(Traces) /\ l = 1
Ev == Traces[tid].ev
e  == Ev[l]
W  == Traces[tid].n * B
Call(o) == l <= Len(Ev) /\ e.op = o /\ e.pan = 0 /\ e.al = 0 /\ l' = l + 1 /\ UNCHANGED tid
Tab(h) == IF h = 0 THEN cur ELSE T[h]
Reads == UNCHANGED <<blk, cur, T, D, S, mods>>

(* filling inserts every prefix of the block once; e.r counts the calls that succeeded *)
Fill   == /\ Call("g.fill")
          /\ blk' = [root |-> e.root, len |-> e.len, n |-> e.n, s |-> e.s]
          /\ cur' = GFull(e.m, e.v)
          /\ e.r = e.n
          /\ UNCHANGED <<T, D, S, mods>>
Mod    == /\ Call("g.mod")
          /\ LET z == GModified(blk, cur, e.o, e.p, e.v) IN
             /\ IF e.o = "goi" THEN Eqv(cur.m, e.r, z.r) ELSE e.r = z.r
             /\ cur' = z.t
          /\ mods' = mods + 1
          /\ UNCHANGED <<blk, T, D, S>>
Snap   == Call("g.snap") /\ T' = Append(T, cur) /\ UNCHANGED <<blk, cur, D, S, mods>>
Get    == /\ Call("g.get") /\ Reads
          /\ LET t == Tab(e.h) IN
             /\ e.found = GHas(blk, t, e.p)
             /\ e.found => Eqv(t.m, e.v, GVal(blk, t, e.p))
Lpm    == /\ Call("g.lpm") /\ Reads
          /\ LET t == Tab(e.h)  k == GLPM(blk, t, e.p) IN
             /\ e.found = (k # NoMatch)
             /\ e.found => Masked(e.q) = k /\ Eqv(t.m, e.v, GVal(blk, t, k))
Num    == Call("g.num") /\ Reads /\ e.r = GNum(blk, Tab(e.h))
Walk   == /\ Call("g.walk") /\ Reads
          /\ LET t == T[e.h]  n == GNum(blk, t)  stops == e.stop > 0 /\ e.stop <= n IN
             /\ GListing(blk, t, e.out, IF stops THEN e.stop ELSE n)
             /\ e.r = ~stops
Diff   == /\ Call("g.diff") /\ Reads
          /\ LET t == T[e.h]  u == T[e.g]
                 want == { k \in GKeys(t, u) : GKind(blk, t, u, k) \in {"C", "L", "R"} }
                 ks == [i \in 1..Len(e.out) |-> Masked(e.out[i].p)] IN
             /\ e.r
             /\ t.v = u.v
             /\ IsListing(ks, want)
             /\ \A i \in 1..Len(ks) :
                   /\ e.out[i].d = GKind(blk, t, u, ks[i])
                   /\ e.out[i].d # "R" => Eqv(t.m, e.out[i].v, GVal(blk, t, ks[i]))
                   /\ e.out[i].d # "L" => Eqv(t.m, e.out[i].v2, GVal(blk, u, ks[i]))
             (* no more comparisons than there are entries that cover a modified prefix: one of the block at most each *)
             /\ e.cmp <= mods * (Cardinality(GKeys(t, u)) + 1)
(* with unchanged entries: every common entry is reported too *)
DiffAll == /\ Call("g.diffall") /\ Reads
           /\ LET t == T[e.h]  u == T[e.g]
                  want == { k \in GKeys(t, u) : GKind(blk, t, u, k) \in {"C", "L", "R"} }
                  both == { k \in GKeys(t, u) : GKind(blk, t, u, k) = "R" } IN
              /\ RunsInOrder(blk, e.out)
              /\ \A i \in 1..Len(e.out) : LET r == e.out[i]  k == Masked(r[1]) IN
                    /\ r[4] = "S" => RunIn(blk, t, r) /\ RunIn(blk, u, r)
                    /\ r[4] # "S" => r[2] = 1 /\ r[4] = GKind(blk, t, u, k)
              /\ RunSum(e.out, 1) = GNum(blk, t) + Cardinality(both)
MapT   == /\ Call("g.map")
          /\ LET t == T[e.h]  u == GMapped(blk, t, e.fn) IN
             /\ GListing(blk, t, e.calls, GNum(blk, t))
             /\ GListing(blk, u, e.out, GNum(blk, u))
             /\ T' = Append(T, u)
          /\ UNCHANGED <<blk, cur, D, S, mods>>
(* the aggregate is short enough to be listed *)
Agg    == /\ Call("g.agg") /\ Reads
          /\ LET t == T[e.h]
                 ks == [i \in 1..Len(e.out) |-> Masked(e.out[i][1])]
                 u == [m |-> t.m, f |-> [k \in { ks[i] : i \in 1..Len(ks) } |-> e.out[CHOOSE i \in 1..Len(ks) : ks[i] = k][2]]] IN
             /\ ~e.more
             /\ IsListing(ks, DOMAIN u.f)
             /\ blk.s = 1 => GSameLookups(blk, t, u) /\ Irreducible(u)
AggSame == /\ Call("g.aggrun") /\ Reads             \* nothing to combine: s = 2 and no explicit entries
           /\ T[e.h].ov = NoFn /\ GListing(blk, T[e.h], e.out, GNum(blk, T[e.h]))

-----------------------------------------------------------------------------
SFill  == /\ Call("gs.fill")
          /\ blk' = [root |-> e.root, len |-> e.len, n |-> e.n, s |-> e.s]
          /\ D' = GBlock
          /\ UNCHANGED <<cur, T, S, mods>>
SMod   == /\ Call("gs.mod")
          /\ D' = GAlg(blk, IF e.o = "ins" THEN "u" ELSE "d", D, IF e.h > 0 THEN S[e.h] ELSE GSmall(blk, e.p))
          /\ UNCHANGED <<blk, cur, T, S, mods>>
SSnap  == Call("gs.snap") /\ S' = Append(S, D) /\ UNCHANGED <<blk, cur, T, D, mods>>
SNum   == Call("gs.num") /\ Reads /\ e.r = GNumAddrs(blk, S[e.h], W)
SNumPfx == /\ Call("gs.npfx") /\ Reads
           /\ LET n == GNumPrefixes(blk, S[e.h], e.l) IN
              IF FitsBits(n, 64) THEN ~e.err /\ e.r = n ELSE e.err
SList  == Call("gs.list") /\ Reads /\ e.r /\ GSetListing(blk, S[e.h], e.out, W)
SAlg   == /\ Call("gs.alg")
          /\ LET z == GAlg(blk, e.o, S[e.h], S[e.g]) IN
             S' = Append(S, z) /\ GSetListing(blk, z, e.out, W)
          /\ UNCHANGED <<blk, cur, T, D, mods>>
SContains == Call("gs.contains") /\ Reads /\ e.r = GSubset(blk, S[e.g], S[e.h])
SHas   == Call("gs.has") /\ Reads /\ e.r = GSubset(blk, GSmall(blk, e.p), S[e.h])
SEqual == Call("gs.equal") /\ Reads /\ e.r = (GSubset(blk, S[e.g], S[e.h]) /\ GSubset(blk, S[e.h], S[e.g]))
(* every other address, and the others: the union is one range, the intersection nothing *)
SOther == /\ Call("gs.other") /\ Reads
          /\ LET all == RangeSet(First(blk.root), LastOf(AtIdx(blk, 2 * blk.n - 1))) IN
             /\ IsPrefixList(e.union, all)
             /\ e.inter = <<>>
             /\ e.back /\ (e.hasnum => e.num = NumAddrs(all))

Finished == l > Len(Ev) /\ UNCHANGED vars
TraceNext == Fill \/ Mod \/ Snap \/ Get \/ Lpm \/ Num \/ Walk \/ Diff \/ DiffAll \/ MapT \/ Agg \/ AggSame
             \/ SFill \/ SMod \/ SSnap \/ SNum \/ SNumPfx \/ SList \/ SAlg \/ SContains \/ SHas \/ SEqual \/ SOther \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
