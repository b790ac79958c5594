-------------------------------- MODULE Giant --------------------------------
(***************************************************************************)
(* Tables and sets of 10^5 entries.  They are too large to list, so one    *)
(* regular block of entries is described by its parameters, and everything *)
(* else explicitly:                                                        *)
(*                                                                         *)
(*   blk  [root, len, n, s]: the prefixes of length len that are the       *)
(*        0th, s-th, 2s-th, ... below the prefix root, n of them           *)
(*   a table [m, v, ov]: every prefix of the block maps to v, except for   *)
(*        those in the domain of ov; ov[k] is the value of k, or Nothing   *)
(*   a set [on, R, X]: outside the region R the block (if on), inside X    *)
(*                                                                         *)
(* A listing is recorded as runs <<first, count, ...>> of entries that are *)
(* s apart.  GiantTrace.tla binds the operators to the real code.          *)
(***************************************************************************)
EXTENDS Tables, AddrSets

Idx(blk, a) == LET RECURSIVE Go(_, _)
                   Go(i, x) == IF i > blk.len THEN x ELSE Go(i + 1, 2*x + Bit(a, i))
               IN  Go(blk.root[2] + 1, 0)
InBlk(blk, k) == /\ k[2] = blk.len
                 /\ HasAddr(blk.root, k[1])
                 /\ LET i == Idx(blk, k[1]) IN i % blk.s = 0 /\ i < blk.n * blk.s
(* the prefix with index i *)
AtIdx(blk, i) == LET RECURSIVE Go(_, _, _)
                     Go(a, j, x) == IF j = blk.root[2] THEN a
                                    ELSE Go(IF x % 2 = 1 THEN SetBit(a, j) ELSE a, j - 1, x \div 2)
                 IN  <<Go(First(blk.root), blk.len, i), blk.len>>

-----------------------------------------------------------------------------
(* tables *)
Nothing == -1
GFull(m, v) == [m |-> m, v |-> v, ov |-> NoFn]
GVal(blk, t, p) == LET k == Masked(p) IN
                   IF k \in DOMAIN t.ov THEN t.ov[k] ELSE IF InBlk(blk, k) THEN t.v ELSE Nothing
GHas(blk, t, p) == GVal(blk, t, p) # Nothing
GPut(t, p, v)   == [t EXCEPT !.ov = (Masked(p) :> v) @@ t.ov]
(* as in Tables *)
GModified(blk, t, o, p, v) ==
    LET h == GHas(blk, t, p)  x == GVal(blk, t, p)
        rep == IF h /\ Eqv(t.m, x, v) THEN t ELSE GPut(t, p, v) IN
    CASE o = "ins" -> IF h THEN [t |-> t, r |-> FALSE] ELSE [t |-> GPut(t, p, v), r |-> TRUE]
      [] o = "upd" -> IF h THEN [t |-> rep, r |-> TRUE] ELSE [t |-> t, r |-> FALSE]
      [] o = "iou" -> [t |-> rep, r |-> TRUE]
      [] o = "goi" -> IF h THEN [t |-> t, r |-> x] ELSE [t |-> GPut(t, p, v), r |-> v]
      [] o = "rem" -> IF h THEN [t |-> GPut(t, p, Nothing), r |-> TRUE] ELSE [t |-> t, r |-> FALSE]
GNum(blk, t) == blk.n + Cardinality({ k \in DOMAIN t.ov : t.ov[k] # Nothing /\ ~InBlk(blk, k) })
                      - Cardinality({ k \in DOMAIN t.ov : t.ov[k] = Nothing /\ InBlk(blk, k) })
GCovering(blk, t, p) ==
    { k \in DOMAIN t.ov : t.ov[k] # Nothing /\ Covers(k, p) } \cup
    (IF p[2] < blk.len THEN {}
     ELSE LET k == Masked(<<p[1], blk.len>>) IN IF GHas(blk, t, k) THEN {k} ELSE {})
GLPM(blk, t, p) == LET c == GCovering(blk, t, p) IN
                   IF c = {} THEN NoMatch ELSE CHOOSE k \in c : \A j \in c : j[2] <= k[2]
GHostVal(blk, t, a) == LET k == GLPM(blk, t, HostPfx(a)) IN IF k = NoMatch THEN Nothing ELSE Cls(t.m, GVal(blk, t, k))

(* a run <<k, c, v>> of c entries with value v *)
RunLast(blk, r) == IF r[2] = 1 THEN Masked(r[1]) ELSE AtIdx(blk, Idx(blk, r[1][1]) + (r[2] - 1) * blk.s)
RunIn(blk, t, r) == IF r[2] = 1 THEN GHas(blk, t, r[1]) /\ Eqv(t.m, GVal(blk, t, r[1]), r[3])
                    ELSE LET k == Masked(r[1])  i == Idx(blk, k[1])  j == i + (r[2] - 1) * blk.s IN
                         /\ InBlk(blk, k) /\ j < blk.n * blk.s
                         /\ LET mine == { q \in DOMAIN t.ov : InBlk(blk, q) /\ Idx(blk, q[1]) \in i..j } IN
                            /\ \A q \in mine : t.ov[q] # Nothing /\ Eqv(t.m, t.ov[q], r[3])
                            /\ Cardinality(mine) = r[2] \/ Eqv(t.m, t.v, r[3])
RunsInOrder(blk, out) == \A i \in 1..(Len(out)-1) : PLt(RunLast(blk, out[i]), Masked(out[i+1][1]))
RECURSIVE RunSum(_, _)
RunSum(out, i) == IF i > Len(out) THEN 0 ELSE out[i][2] + RunSum(out, i + 1)
(* the listing is in order and of entries of the table only; n of them *)
GListing(blk, t, out, n) == /\ RunsInOrder(blk, out)
                            /\ \A i \in 1..Len(out) : RunIn(blk, t, out[i])
                            /\ RunSum(out, 1) = n

GKeys(t, u) == DOMAIN t.ov \cup DOMAIN u.ov
GKind(blk, t, u, k) == LET x == GVal(blk, t, k)  y == GVal(blk, u, k) IN
                       IF x = Nothing THEN (IF y = Nothing THEN "-" ELSE "R")
                       ELSE IF y = Nothing THEN "L"
                       ELSE IF Eqv(t.m, x, y) THEN "S" ELSE "C"
(* only the value and the length matter to a mapper *)
GMapFn(fn, m, l, v) == (fn[1] * Cls(m, v) + fn[2] * l + fn[3]) % 97
GMapped(blk, t, fn) == [m |-> t.m, v |-> GMapFn(fn, t.m, blk.len, t.v),
                        ov |-> [k \in DOMAIN t.ov |-> IF t.ov[k] = Nothing THEN Nothing
                                                      ELSE GMapFn(fn, t.m, k[2], t.ov[k])]]
(* an aggregate u (explicit) of t, when s = 1: inside the block and between the explicit entries lookups are constant *)
GStarts(blk, t, u) == Starts(DOMAIN t.ov \cup DOMAIN u.f \cup {AtIdx(blk, 0), AtIdx(blk, blk.n - 1)})
GSameLookups(blk, t, u) == \A a \in GStarts(blk, t, u) \cup {Zero(Len(blk.root[1]))} :
                               GHostVal(blk, t, a) = HostVal(u, a)

-----------------------------------------------------------------------------
(* sets; the block of a set has s = 2, and R consists of whole pairs, so that no prefix of the block outside R *)
(* is one of the halves of a prefix that the set contains                                                      *)
GEmpty == [on |-> FALSE, R |-> Empty, X |-> Empty]
GBlock == [on |-> TRUE, R |-> Empty, X |-> Empty]
Pair(blk, p) == IF p[2] >= blk.len THEN PrefixSet(<<p[1], blk.len - 1>>) ELSE PrefixSet(p)
GSmall(blk, p) == [on |-> FALSE, R |-> Pair(blk, p), X |-> PrefixSet(p)]

MinI(x, y) == IF x < y THEN x ELSE y
(* the block's indices (0..n-1, in units of s) inside range r; r consists of whole pairs *)
IdxLo(blk, r) == LET lo == MaxA(r[1], First(blk.root)) IN (Idx(blk, lo) + blk.s - 1) \div blk.s
IdxHi(blk, r) == LET hi == MinA(r[2], LastOf(blk.root)) IN MinI(Idx(blk, hi) \div blk.s, blk.n - 1)
Meets(blk, r) == Le(r[1], LastOf(blk.root)) /\ Le(First(blk.root), r[2])
CountIn(blk, r) == IF ~Meets(blk, r) THEN 0
                   ELSE LET x == IdxLo(blk, r)  y == IdxHi(blk, r) IN IF y < x THEN 0 ELSE y - x + 1
BlkIn(blk, r) == IF CountIn(blk, r) = 0 THEN Empty
                 ELSE LET x == IdxLo(blk, r) IN
                      [i \in 1..CountIn(blk, r) |-> LET p == AtIdx(blk, (x + i - 1) * blk.s) IN <<p[1], LastOf(p)>>]
RECURSIVE BlkAll(_, _, _)
BlkAll(blk, R, i) == IF i > Len(R) THEN <<>> ELSE BlkIn(blk, R[i]) \o BlkAll(blk, R, i + 1)
(* what the set holds inside R, where z.R is part of R *)
Over(blk, z, R) == IF z.on THEN Union(z.X, BlkAll(blk, Minus(R, z.R), 1)) ELSE z.X
GAlg(blk, o, x, y) ==
    LET R == Union(x.R, y.R)  a == Over(blk, x, R)  b == Over(blk, y, R) IN
    CASE o = "u" -> [on |-> x.on \/ y.on, R |-> R, X |-> Union(a, b)]
      [] o = "i" -> [on |-> x.on /\ y.on, R |-> R, X |-> Inter(a, b)]
      [] o = "d" -> [on |-> x.on /\ ~y.on, R |-> R, X |-> Minus(a, b)]
RECURSIVE CountAll(_, _, _)
CountAll(blk, R, i) == IF i > Len(R) THEN 0 ELSE CountIn(blk, R[i]) + CountAll(blk, R, i + 1)
Outside(blk, z) == IF z.on THEN blk.n - CountAll(blk, z.R, 1) ELSE 0

BigOfNat(x) == IF x < Base THEN BigTrim(<<x>>) ELSE <<x % Base, x \div Base>>
BigShl(x, k) == LET d == k \div B  r == k % B IN
                BigTrim([i \in 1..(Len(x) + d + 1) |->
                    IF i <= d THEN 0
                    ELSE ((Dig(x, i-d) * P2[r]) % Base) + (IF i - d = 1 THEN 0 ELSE Dig(x, i-d-1) \div P2[B - r])])
GNumPrefixes(blk, z, l) == BigAdd(IF l < blk.len THEN <<>> ELSE BigShl(BigOfNat(Outside(blk, z)), l - blk.len),
                                  NumPrefixes(z.X, l))
GNumAddrs(blk, z, w) == GNumPrefixes(blk, z, w)
GIsEmpty(blk, z) == Outside(blk, z) = 0 /\ z.X = Empty
GSubset(blk, x, y) == GIsEmpty(blk, GAlg(blk, "d", x, y))

(* runs <<p, c>> of prefixes of the set *)
SetRunLast(blk, r) == IF r[2] = 1 THEN r[1] ELSE AtIdx(blk, Idx(blk, r[1][1]) + (r[2] - 1) * blk.s)
RECURSIVE RunAddrs(_, _, _)
RunAddrs(out, w, i) == IF i > Len(out) THEN <<>>
                       ELSE BigAdd(BigShl(BigOfNat(out[i][2]), w - out[i][1][2]), RunAddrs(out, w, i + 1))
SetRunIn(blk, z, r) ==
    IF r[2] = 1 THEN /\ r[1] = Masked(r[1])
                     /\ GSubset(blk, GSmall(blk, r[1]), z)
    ELSE LET i == Idx(blk, r[1][1])  e == SetRunLast(blk, r) IN
         /\ InBlk(blk, r[1]) /\ r[1] = Masked(r[1]) /\ i + (r[2] - 1) * blk.s < blk.n * blk.s
         (* the part of the run that lies in R, or else all of it, is explicit *)
         /\ LET all == RangeSet(r[1][1], LastOf(e))  R == IF z.on THEN Inter(z.R, all) ELSE all IN
            Subset(BlkAll(blk, R, 1), z.X)
GSetListing(blk, z, out, w) ==
    /\ \A i \in 1..Len(out) : SetRunIn(blk, z, out[i])
    /\ \A i \in 1..(Len(out)-1) : LET p == SetRunLast(blk, out[i])  q == out[i+1][1] IN
                                  Lt(LastOf(p), q[1]) /\ ~Mergeable(p, q)
    /\ RunAddrs(out, w, 1) = GNumAddrs(blk, z, w)
=============================================================================
