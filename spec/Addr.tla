-------------------------------- MODULE Addr --------------------------------
(***************************************************************************)
(* Addresses, prefixes and their arithmetic.                               *)
(*                                                                         *)
(* An address is a sequence of limbs of B bits each, most significant      *)
(* limb first; its width is Len(a) * B bits.  The traces recorded from the *)
(* real code use B = 16 (2 limbs for IPv4, 8 limbs for IPv6); the          *)
(* exhaustive models use a handful of bits, in one limb or in two so that  *)
(* carries between limbs are explored.                                     *)
(*                                                                         *)
(* A prefix is a pair <<a, l>>: an address and a number of leading bits.   *)
(* A prefix is *masked* when its host bits are all zero; <<Net(a,l), l>>   *)
(* is the masked form, the identity under which tables store it.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT B              \* bits per limb

P2 == [i \in 0..B |-> 2^i]
LimbMax == P2[B] - 1

Width(a) == Len(a) * B
Zero(n)  == [i \in 1..n |-> 0]
Ones(n)  == [i \in 1..n |-> LimbMax]

(* the number of leading ones in limb i of the mask of length l *)
MaskBits(l, i) == LET k == l - (i-1)*B IN IF k <= 0 THEN 0 ELSE IF k >= B THEN B ELSE k

Mask(n, l)  == [i \in 1..n |-> LimbMax - (P2[B - MaskBits(l, i)] - 1)]
Net(a, l)   == [i \in 1..Len(a) |-> LET h == P2[B - MaskBits(l, i)] IN a[i] - (a[i] % h)]
Host(a, l)  == [i \in 1..Len(a) |-> a[i] % P2[B - MaskBits(l, i)]]
LastA(a, l)  == [i \in 1..Len(a) |-> LET h == P2[B - MaskBits(l, i)] IN a[i] - (a[i] % h) + (h - 1)]

(* bit i (1 = most significant) of address a *)
Bit(a, i) == LET limb == ((i-1) \div B) + 1
                 pos  == (i-1) % B
             IN  (a[limb] \div P2[B - 1 - pos]) % 2

RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i > Len(a) THEN FALSE
                   ELSE IF a[i] = b[i] THEN LtFrom(a, b, i+1) ELSE a[i] < b[i]
Lt(a, b) == LtFrom(a, b, 1)
Le(a, b) == ~ LtFrom(b, a, 1)
MinA(a, b) == IF Lt(b, a) THEN b ELSE a
MaxA(a, b) == IF Lt(a, b) THEN b ELSE a

(* successor and predecessor, wrapping at the ends of the space *)
RECURSIVE SuccAt(_, _)
SuccAt(a, i) == IF i = 0 THEN a
                ELSE IF a[i] = LimbMax THEN SuccAt([a EXCEPT ![i] = 0], i-1)
                ELSE [a EXCEPT ![i] = @ + 1]
Succ(a) == SuccAt(a, Len(a))
RECURSIVE PredAt(_, _)
PredAt(a, i) == IF i = 0 THEN a
                ELSE IF a[i] = 0 THEN PredAt([a EXCEPT ![i] = LimbMax], i-1)
                ELSE [a EXCEPT ![i] = @ - 1]
Pred(a) == PredAt(a, Len(a))
IsMin(a) == \A i \in 1..Len(a) : a[i] = 0
IsMax(a) == \A i \in 1..Len(a) : a[i] = LimbMax

(* prefixes *)
Masked(p)    == <<Net(p[1], p[2]), p[2]>>
Covers(p, q) == p[2] <= q[2] /\ Net(q[1], p[2]) = Net(p[1], p[2])
HasAddr(p, a) == Net(a, p[2]) = Net(p[1], p[2])
First(p)     == Net(p[1], p[2])
LastOf(p)    == LastA(p[1], p[2])
HostPfx(a)   == <<a, Width(a)>>

(* lexicographic order on masked prefixes: a prefix before all it covers *)
PLt(p, q) == Lt(p[1], q[1]) \/ (p[1] = q[1] /\ p[2] < q[2])

(* the two halves of a prefix shorter than an address *)
SetBit(a, i) == LET limb == ((i-1) \div B) + 1
                    pos  == (i-1) % B
                IN  [a EXCEPT ![limb] = @ + P2[B - 1 - pos]]
Halves(p) == LET n == Net(p[1], p[2]) IN
             << <<n, p[2] + 1>>, <<SetBit(n, p[2] + 1), p[2] + 1>> >>
Parent(p)  == <<Net(p[1], p[2] - 1), p[2] - 1>>
Sibling(p) == LET h == Halves(Parent(p)) IN IF h[1] = Masked(p) THEN h[2] ELSE h[1]

(* all addresses / prefixes of an n-limb space (small constants only) *)
Addresses(n) == [1..n -> 0..LimbMax]
AllPrefixes(n)  == { p \in { <<a, l>> : a \in Addresses(n), l \in 0..(n*B) } : p[1] = Net(p[1], p[2]) }

(***************************************************************************)
(* Unbounded counts as little-endian sequences of base-2^B digits with no  *)
(* trailing zero (TLC integers have 32 bits).  <<>> is zero.               *)
(***************************************************************************)
Base == P2[B]
RECURSIVE BigTrim(_)
BigTrim(x) == IF x = <<>> THEN <<>> ELSE IF x[Len(x)] = 0 THEN BigTrim(SubSeq(x, 1, Len(x)-1)) ELSE x
Dig(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
RECURSIVE BigAddFrom(_, _, _, _)
BigAddFrom(x, y, i, c) ==
    IF i > Len(x) /\ i > Len(y) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == Dig(x, i) + Dig(y, i) + c IN <<s % Base>> \o BigAddFrom(x, y, i+1, s \div Base)
BigAdd(x, y) == BigTrim(BigAddFrom(x, y, 1, 0))
RECURSIVE BigSubFrom(_, _, _, _)
BigSubFrom(x, y, i, c) ==          \* x >= y
    IF i > Len(x) THEN <<>>
    ELSE LET d == x[i] - Dig(y, i) - c IN
         <<(IF d < 0 THEN d + Base ELSE d)>> \o BigSubFrom(x, y, i+1, IF d < 0 THEN 1 ELSE 0)
BigSub(x, y) == BigTrim(BigSubFrom(x, y, 1, 0))
BigPow2(k)   == [i \in 1..((k \div B) + 1) |-> IF i = (k \div B) + 1 THEN P2[k % B] ELSE 0]
BigShr(x, k) == LET d == k \div B  r == k % B IN
                BigTrim([i \in 1..(IF Len(x) > d THEN Len(x) - d ELSE 0) |->
                          (x[i+d] \div P2[r]) + (Dig(x, i+d+1) % P2[r]) * P2[B - r]])
BigOfAddr(a) == BigTrim([i \in 1..Len(a) |-> a[Len(a) + 1 - i]])
BigOne == <<1>>
FitsBits(x, k) == \A i \in 1..Len(x) : i > k \div B => (i = (k \div B) + 1 /\ x[i] < P2[k % B])
=============================================================================
