------------------------------ MODULE GenSets -------------------------------
(***************************************************************************)
(* Enumerates every set of B-bit addresses (set c holds address a when bit *)
(* a of c is 1) and every operation on them, as JSON for the replayer      *)
(* (harness/cmd/rep), which performs the same operations on the real code  *)
(* at every position of the real address spaces.                           *)
(***************************************************************************)
EXTENDS AddrSets, Json, IOUtils, TLC

N == P2[B]                       \* addresses
M == 2^N                         \* sets
Bin(c, a) == (c \div 2^a) % 2

RECURSIVE FromTo(_, _)
FromTo(c, a) == IF a = N THEN Empty
                ELSE IF Bin(c, a) = 1 THEN Union(AddrSet(<<a>>), FromTo(c, a+1)) ELSE FromTo(c, a+1)
Sets == [i \in 1..M |-> FromTo(i-1, 0)]          \* set c is Sets[c+1]
RECURSIVE RangeCode(_, _)
RangeCode(x, y) == IF x > y THEN 0 ELSE 2^x + RangeCode(x+1, y)
RECURSIVE CodeOf(_)
CodeOf(s) == IF s = <<>> THEN 0 ELSE RangeCode(s[1][1][1], s[1][2][1]) + CodeOf(Tail(s))

Pfx(p)  == <<p[1][1], p[2]>>
Big(x)  == IF x = <<>> THEN 0 ELSE x[1] + (IF Len(x) > 1 THEN P2[B] * x[2] ELSE 0)
Bool(b) == IF b THEN 1 ELSE 0
Fit(S, l) == { p \in AllPrefixes(1) : p[2] = l /\ BestFit(S, Empty, l, p) }
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<Pfx(x)>> \o SeqOf(S \ {x})

State(S) == [ list |-> LET L == PrefixList(S) IN [i \in 1..Len(L) |-> Pfx(L[i])],
              rng  |-> [i \in 1..Len(S) |-> <<S[i][1][1], S[i][2][1]>>],
              num  |-> [l \in 1..(B+1) |-> Big(NumPrefixes(S, l-1))],
              fit  |-> [l \in 1..(B+1) |-> SeqOf(Fit(S, l-1))] ]
Out == [ b      |-> B,
         states |-> [i \in 1..M |-> State(Sets[i])],
         union  |-> [i \in 1..M |-> [j \in 1..M |-> CodeOf(Union(Sets[i], Sets[j]))]],
         inter  |-> [i \in 1..M |-> [j \in 1..M |-> CodeOf(Inter(Sets[i], Sets[j]))]],
         minus  |-> [i \in 1..M |-> [j \in 1..M |-> CodeOf(Minus(Sets[i], Sets[j]))]],
         subset |-> [i \in 1..M |-> [j \in 1..M |-> Bool(Subset(Sets[j], Sets[i]))]] ]

VARIABLE x
Init == x = 0
Next == UNCHANGED x
ASSUME \A i \in 1..M : CodeOf(Sets[i]) = i - 1
ASSUME JsonSerialize(IOEnv.GEN, Out)
=============================================================================
