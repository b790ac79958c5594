----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Trace validation: every recorded call of the real code must be a step   *)
(* of Store with the recorded result.  The file named by the environment   *)
(* variable TRACE holds one history per line: {"n": limbs, "ev": [...]}.   *)
(* Each history is an initial state; a history is rejected at event l when *)
(* no action is enabled there, which TLC reports as a deadlock.            *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l
vars == <<svars, tid, l>>

TraceInit == StoreInit /\ tid \in 1..Len(Traces) /\ l = 1

Ev == Traces[tid].ev
N  == Traces[tid].n
e  == Ev[l]
W  == N * B

IsOp(o) == l <= Len(Ev) /\ e.op = o
Consume == l' = l + 1 /\ UNCHANGED tid
(* a call that must not panic, nor pass the comparison (e.al) a value that was never given to a table *)
Call(o)  == IsOp(o) /\ e.pan = 0 /\ e.al = 0 /\ Consume
Reads    == UNCHANGED svars

(* an observed listing << <<p, v>>, ... >> as a sequence of masked keys *)
KeysOf(out) == [i \in 1..Len(out) |-> Masked(out[i][1])]
AsTable(m, out) == [m |-> m, f |-> [k \in { Masked(out[i][1]) : i \in 1..Len(out) } |->
                      out[CHOOSE i \in 1..Len(out) : Masked(out[i][1]) = k][2]]]
SameValues(t, out) == \A i \in 1..Len(out) : Alike(t.m, out[i][2], t.f[Masked(out[i][1])])
FullListing(t, out) == IsListing(KeysOf(out), DOMAIN t.f) /\ SameValues(t, out)
Min2(x, y) == IF x < y THEN x ELSE y
(* how a walk over n items that stops at the stop-th callback (0: never) must end *)
StopsRight(n, stop, seen, r) == IF stop > 0 /\ stop <= n THEN seen = stop /\ r = FALSE
                                ELSE seen = n /\ r = TRUE

-----------------------------------------------------------------------------
TNew    == Call("t.new")   /\ NewTable(e.m)
TZero   == Call("t.zero")  /\ ZeroMutTable
TIZero  == Call("t.izero") /\ ZeroTable
TSnap   == Call("t.snap")  /\ Snapshot(e.h)
TClone  == Call("t.clone") /\ CloneTable(e.h)
TCopy   == Call("t.copy")  /\ CopyHandle(e.h)

ModOps == {"ins", "upd", "iou", "goi", "rem"}
TMod    == /\ Call("t.mod")
           /\ H[e.h] # 0
           /\ IF e.o = "goi" THEN Alike(C[H[e.h]].m, e.v2, RModify(e.h, e.o, e.p, e.v))
              ELSE e.r = RModify(e.h, e.o, e.p, e.v)
           /\ ModifyTable(e.h, e.o, e.p, e.v)
TBulk   == Call("t.bulk") /\ RunTable(e.h, e.xs)
(* the same calls many times over: the first three rounds and the last are recorded, the others were like the third *)
TRep    == Call("t.rep") /\ e.odd = 0 /\ RunTable(e.h, e.xs)
(* clones of a table, each with the same modifications, and forgotten *)
TChurn  == /\ Call("t.churn") /\ Reads /\ e.odd = 0
           /\ LET z == Run(<<T[e.h], <<>>, TRUE>>, e.xs, 1) IN z[3] /\ FullListing(z[1], e.out)
TModZero == /\ IsOp("t.mod") /\ e.pan = 1 /\ Consume
            /\ ModifyZeroTable(e.h)

TGet    == /\ Call("t.get") /\ Reads
           /\ LET t == TabOf(e.k, e.h) IN
              /\ e.found = Has(t, e.p)
              /\ e.found => Alike(t.m, e.v, Val(t, e.p))
TLPM    == /\ Call("t.lpm") /\ Reads
           /\ LET t == TabOf(e.k, e.h)  k == LPM(t, e.p) IN
              /\ e.found = (k # NoMatch)
              /\ e.found => Masked(e.q) = k /\ Alike(t.m, e.v, t.f[k])
TNum    == Call("t.num") /\ Reads /\ e.r = Cardinality(DOMAIN TabOf(e.k, e.h).f)
TWalk   == /\ Call("t.walk") /\ Reads
           /\ LET t == TabOf(e.k, e.h)  ks == KeysOf(e.out) IN
              /\ StopsRight(Cardinality(DOMAIN t.f), e.stop, Len(e.out), e.r)
              /\ IsPrefixListing(ks, DOMAIN t.f)
              /\ SameValues(t, e.out)

(* e.on says which of the four callbacks were given; e.out lists the reports *)
DiffWanted(t, u) == { k \in DOMAIN t.f \cup DOMAIN u.f :
                        LET d == DiffKind(t, u, k) IN
                        CASE d = "C" -> e.on[1] [] d = "L" -> e.on[2]
                          [] d = "R" -> e.on[3] [] d = "S" -> e.on[4] }
(* When nothing equals anything, every entry that both have has changed.  One   *)
(* that was stored but once and is shared need not be looked at: it may be      *)
(* reported as changed, or unchanged, or skipped.                               *)
NeverDiff(t, u) ==
    LET both == DOMAIN t.f \cap DOMAIN u.f
        sure == { k \in both : t.f[k] # u.f[k] \/ ~Sharing \/ k \in Stored(LogOf(e.k, e.h), LogOf(e.k2, e.g)) }
        must == (IF e.on[1] THEN sure ELSE {}) \cup (IF e.on[2] THEN DOMAIN t.f \ both ELSE {})
                \cup (IF e.on[3] THEN DOMAIN u.f \ both ELSE {})
        may  == must \cup (IF e.on[1] \/ e.on[4] THEN both \ sure ELSE {})
        ks == [i \in 1..Len(e.out) |-> Masked(e.out[i].p)]
        got == { ks[i] : i \in 1..Len(ks) }
    IN  /\ got \subseteq may
        /\ \A i \in 1..(Len(ks)-1) : PLt(ks[i], ks[i+1])
        /\ IF e.stop > 0 /\ Len(ks) = e.stop
           THEN ~e.r /\ \A k \in must : PLt(k, ks[Len(ks)]) => k \in got
           ELSE e.r /\ must \subseteq got
        /\ \A i \in 1..Len(ks) :
              /\ IF ks[i] \in both \ sure
                 THEN (e.out[i].d = "C" /\ e.on[1]) \/ (e.out[i].d = "S" /\ e.on[4])
                 ELSE e.out[i].d = DiffKind(t, u, ks[i])
              /\ ks[i] \in DOMAIN t.f => Alike(t.m, e.out[i].v, t.f[ks[i]])
              /\ (ks[i] \in DOMAIN u.f /\ e.out[i].d # "S") => Alike(t.m, e.out[i].v2, u.f[ks[i]])
TDiff   == /\ Call("t.diff") /\ Reads
           /\ IF TabOf(e.k, e.h).m = Never THEN NeverDiff(TabOf(e.k, e.h), TabOf(e.k2, e.g)) ELSE
              LET t == TabOf(e.k, e.h)
                  u == TabOf(e.k2, e.g)
                  want == DiffWanted(t, u)
                  ks == [i \in 1..Len(e.out) |-> Masked(e.out[i].p)]
              IN  /\ StopsRight(Cardinality(want), e.stop, Len(e.out), e.r)
                  /\ IsPrefixListing(ks, want)
                  /\ \A i \in 1..Len(ks) :
                        /\ e.out[i].d = DiffKind(t, u, ks[i])
                        /\ ks[i] \in DOMAIN t.f => Alike(t.m, e.out[i].v, t.f[ks[i]])
                        /\ (ks[i] \in DOMAIN u.f /\ e.out[i].d # "S") => Alike(u.m, e.out[i].v2, u.f[ks[i]])
                  (* unless unchanged entries are asked for, no more comparisons than the changes justify *)
                  /\ (Sharing /\ ~e.on[4]) => e.cmp <= CmpBound(t, u, LogOf(e.k, e.h), LogOf(e.k2, e.g))
TAgg    == /\ Call("t.agg")
           /\ LET t == T[e.h]  u == AsTable(t.m, e.out) IN
              /\ FullListing(u, e.out)
              /\ AggregateTable(e.h, u, N)
(* the rules of minimality that hold for every aggregate *)
TAggMin == /\ Call("t.aggmin") /\ Reads
           /\ Irreducible(AsTable(T[e.h].m, e.out))
TMap    == /\ Call("t.map")
           /\ LET t == T[e.h]  u == Mapped(t, e.fn) IN
              /\ e.fn # <<>> => FullListing(t, e.calls)
              /\ e.fn = <<>> => e.calls = <<>>
              /\ FullListing(u, e.out)
           /\ MapTable(e.h, e.fn)
TBuildBegin == Call("t.bbeg") /\ BuildBegin(e.h)
TBuildEnd   == /\ Call("t.bend")
               /\ FullListing(IF e.commit THEN TabOf("m", e.g) ELSE T[e.h], e.out)
               /\ BuildEnd(e.h, e.g, e.commit)

-----------------------------------------------------------------------------
SNew    == Call("s.new")   /\ NewSet
SZero   == Call("s.zero")  /\ ZeroMutSet
SIZero  == Call("s.izero") /\ ZeroSet
SSnap   == Call("s.snap")  /\ SnapshotSet(e.h)
SClone  == Call("s.clone") /\ CloneSet(e.h)
SCopy   == Call("s.copy")  /\ CopySetHandle(e.h)
SMod    == Call("s.mod") /\ ModifySet(e.h, e.o, SetVal(e.y))
SBulk   == Call("s.bulk") /\ RunSet(e.h, e.xs)
SRep    == Call("s.rep") /\ e.odd = 0 /\ RunSet(e.h, e.xs)
SChurn  == Call("s.churn") /\ Reads /\ e.odd = 0 /\ IsPrefixList(e.out, RunSets(S[e.h], e.xs, 1))
SModZero == IsOp("s.mod") /\ e.pan = 1 /\ Consume /\ ModifyZeroSet(e.h)
SBuildBegin == Call("s.bbeg") /\ CloneSet(e.h)
SBuildEnd   == Call("s.bend") /\ BuildSetEnd(e.h, e.g, e.commit)
                /\ IsPrefixList(e.out, IF e.commit THEN SetOf("m", e.g) ELSE S[e.h])

SAlg    == /\ Call("s.alg")
           /\ LET z == SetAlgebra(e.o, SetVal(e.x), SetVal(e.y)) IN
              AddSet(z) /\ IsPrefixList(e.out, z)
STo     == /\ Call("s.to") /\ AddSet(SetVal(e.x)) /\ IsPrefixList(e.out, SetVal(e.x))
SList   == Call("s.list") /\ Reads /\ IsPrefixList(e.out, SetOf(e.k, e.h))
SContains == Call("s.contains") /\ Reads /\ e.r = Subset(SetVal(e.y), SetVal(e.x))
SEqual  == Call("s.equal") /\ Reads /\ e.r = (SetVal(e.x) = SetVal(e.y))
SIsEmpty  == Call("s.empty") /\ Reads /\ e.r = (SetVal(e.x) = Empty)

(* counts are logged as base-2^16 digits, least significant first *)
SNum    == Call("s.num") /\ Reads /\ e.r = NumAddrs(SetVal(e.x))
SNumPfx == /\ Call("s.npfx") /\ Reads
           /\ LET z == SetVal(e.x) IN
              IF e.l > W THEN e.err \/ z = Empty
              ELSE LET n == NumPrefixes(z, e.l) IN
                   IF FitsBits(n, 64) THEN ~e.err /\ e.r = n ELSE e.err
SWalkP  == /\ Call("s.walkp") /\ Reads
           /\ LET z == SetOf("s", e.h) IN
              IF e.r THEN IsPrefixList(e.out, z) /\ (e.stop = 0 \/ Len(e.out) < e.stop)
              ELSE e.stop > 0 /\ Len(e.out) = e.stop /\ IsPrefixListStart(e.out, z)
SWalkR  == /\ Call("s.walkr") /\ Reads
           /\ LET z == SetOf("s", e.h) IN
              /\ StopsRight(Len(z), e.stop, Len(e.out), e.r)
              /\ e.out = SubSeq(z, 1, Len(e.out))
(* address walks may be far too long to list; follow them address by address *)
NextIn(z, a) == IF IsMax(a) THEN <<>>
                ELSE IF Member(z, Succ(a)) THEN Succ(a)
                ELSE LET after == { i \in 1..Len(z) : Lt(a, z[i][1]) } IN
                     IF after = {} THEN <<>> ELSE z[CHOOSE i \in after : \A j \in after : i <= j][1]
SWalkA  == /\ Call("s.walka") /\ Reads
           /\ LET z == SetOf("s", e.h)  o == e.out  n == Len(o) IN
              /\ n > 0 => z # Empty /\ o[1] = z[1][1]
              /\ \A i \in 1..(n-1) : o[i+1] = NextIn(z, o[i])
              /\ e.r = FALSE => e.stop > 0 /\ n = e.stop
              /\ e.r = TRUE  => /\ e.stop > 0 => n < e.stop
                                /\ IF z = Empty THEN n = 0 ELSE n > 0 /\ o[n] = z[Len(z)][2]
SFind   == /\ Call("s.find") /\ Reads
           /\ LET z == SetVal(e.x)  rs == SetVal(e.y) IN
              IF e.l > W THEN e.err
              ELSE IF CanAlloc(z, rs, e.l)
                   THEN ~e.err /\ e.p[2] = e.l /\ Masked(e.p) = e.p /\ BestFit(z, rs, e.l, e.p)
                   ELSE e.err

-----------------------------------------------------------------------------
(* ranges and prefixes: stateless facts *)
RFrom   == /\ Call("r.from") /\ Reads
           /\ IF Le(e.x, e.y) THEN ~e.empty /\ e.lo = e.x /\ e.hi = e.y ELSE e.empty
RPlus   == Call("r.plus")  /\ Reads /\ e.out = Union(SetVal(e.x), SetVal(e.y))
RMinus  == Call("r.minus") /\ Reads /\ e.out = Minus(SetVal(e.x), SetVal(e.y))
PFacts  == /\ Call("p.facts") /\ Reads
           /\ LET a == e.p[1]  n == e.p[2] IN
              /\ e.addr = a /\ e.len = n
              /\ e.net = <<Net(a, n), n>>
              /\ e.host = <<Host(a, n), n>>
              /\ e.bcast # <<>> => e.bcast = <<LastA(a, n), n>>
              /\ e.mask = Mask(N, n) /\ e.mlen = n
              /\ e.words = <<a, Mask(N, n)>>
              /\ e.lo = Net(a, n) /\ e.hi = LastA(a, n)
              /\ n < W => e.halves = Halves(e.p)
AFacts  == /\ Call("a.facts") /\ Reads
           /\ e.pfx = <<e.a, W>> /\ e.bits = W /\ e.back = e.a

(* values are equal, and equal as keys of a map, exactly when they denote the same thing *)
VEq     == Call("v.eq") /\ Reads /\ e.r = (e.x = e.y) /\ e.key = e.r

(* What calls on large objects may cost, in objects and bytes of memory: nothing that grows with the number e.n   *)
(* of entries; a modification, and a lookup, at most a few objects for each of the W + 1 levels there can be.     *)
(* The constants leave room for several times what a path-copying trie needs, and are far below a copy of the     *)
(* thousands of entries that the drivers use.                                                                     *)
SnapObjects == 16
SnapBytes   == 2048
PathObjects == 32 + 8 * (W + 1)
PathBytes   == 4096 + 512 * (W + 1)
CSnap   == Call("cost.snap") /\ Reads /\ e.c <= SnapObjects /\ e.b <= SnapBytes
CMod    == (Call("cost.mod") \/ Call("cost.smod")) /\ Reads /\ e.c <= PathObjects /\ e.b <= PathBytes
(* e.n is the number of entries or maximal prefixes held in all, e.v the size of the values, e.c the bytes of memory occupied *)
CHeap   == Call("cost.heap") /\ Reads /\ e.c <= 65536 + 1024 * e.n + e.v

(* a panic of something the library called back comes out of the call, which has done nothing *)
Faulty  == /\ l <= Len(Ev) /\ e.pan = 3 /\ e.al = 0 /\ Consume
           /\ Failed

Finished == l > Len(Ev) /\ UNCHANGED vars

TraceNext ==
    \/ TNew \/ TZero \/ TIZero \/ TSnap \/ TClone \/ TCopy \/ TMod \/ TModZero \/ TBulk \/ TRep \/ TChurn
    \/ TGet \/ TLPM \/ TNum \/ TWalk \/ TDiff \/ TAgg \/ TAggMin \/ TMap \/ TBuildBegin \/ TBuildEnd
    \/ SNew \/ SZero \/ SIZero \/ SSnap \/ SClone \/ SCopy \/ SMod \/ SModZero \/ SBulk \/ SRep \/ SChurn \/ SBuildBegin \/ SBuildEnd
    \/ SAlg \/ STo \/ SList \/ SContains \/ SEqual \/ SIsEmpty \/ SNum \/ SNumPfx
    \/ SWalkP \/ SWalkR \/ SWalkA \/ SFind
    \/ RFrom \/ RPlus \/ RMinus \/ PFacts \/ AFacts \/ VEq \/ CSnap \/ CMod \/ CHeap
    \/ Faulty \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
