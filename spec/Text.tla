-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The text and binary forms of addresses, masks, prefixes, ranges and     *)
(* sets.  Text is a sequence of character codes; addresses have 16-bit     *)
(* limbs: 2 for IPv4, 8 for IPv6.                                          *)
(*                                                                         *)
(* Formatting: dotted quad for IPv4; for IPv6 the canonical form of RFC    *)
(* 5952 (lower case, no leading zeros, the first longest run of two or     *)
(* more zero groups as "::"), IPv4-mapped addresses as "::ffff:a.b.c.d".   *)
(*                                                                         *)
(* Parsing: Addr4 and Addr6 are the address a text denotes, or Bad.        *)
(***************************************************************************)
EXTENDS AddrSets
LOCAL INSTANCE SequencesExt

ASSUME B = 16

Colon == 58   Dot == 46   Slash == 47   LBr == 91   RBr == 93   Comma == 44   Blank == 32
Bad == <<-1>>

(* ---- numbers ---- *)
RECURSIVE Digits(_, _)
Digits(n, b) == (IF n < b THEN <<>> ELSE Digits(n \div b, b)) \o << n % b >>
Code(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Num(n, b) == LET ds == Digits(n, b) IN [i \in 1..Len(ds) |-> Code(ds[i])]
Dec(n) == Num(n, 10)
Hex(n) == Num(n, 16)

DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
AllDigits(s, b) == \A i \in 1..Len(s) : DigitVal(s[i]) < b
ValueOf(s, b) == FoldLeft(LAMBDA acc, c : acc * b + DigitVal(c), 0, s)

(* ---- formatting ---- *)
Dotted(a) == Dec(a[1] \div 256) \o <<Dot>> \o Dec(a[1] % 256) \o <<Dot>> \o Dec(a[2] \div 256) \o <<Dot>> \o Dec(a[2] % 256)
IsMapped(a) == Len(a) = 8 /\ (\A i \in 1..5 : a[i] = 0) /\ a[6] = 65535
Map4(a) == <<a[7], a[8]>>                     \* the IPv4 address a mapped one stands for
ToMapped(a) == <<0, 0, 0, 0, 0, 65535, a[1], a[2]>>

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Groups(a, i, j) == Join([k \in 1..(j - i + 1) |-> Hex(a[i + k - 1])], <<Colon>>)
ZeroRun(a, i, j) == \A k \in i..j : a[k] = 0
(* <<first, last>> of the run that "::" stands for, or <<>> *)
Elided(a) == LET runs == { r \in (1..8) \X (1..8) : r[1] < r[2] /\ ZeroRun(a, r[1], r[2]) } IN
             IF runs = {} THEN <<>>
             ELSE CHOOSE r \in runs : \A q \in runs :
                    q[2] - q[1] < r[2] - r[1] \/ (q[2] - q[1] = r[2] - r[1] /\ r[1] <= q[1])
AddrText(a) ==
    IF Len(a) = 2 THEN Dotted(a)
    ELSE IF IsMapped(a) THEN <<Colon, Colon, 102, 102, 102, 102, Colon>> \o Dotted(Map4(a))
    ELSE LET r == Elided(a) IN
         IF r = <<>> THEN Groups(a, 1, 8)
         ELSE Groups(a, 1, r[1] - 1) \o <<Colon, Colon>> \o Groups(a, r[2] + 1, 8)
PrefixText(p)   == AddrText(p[1]) \o <<Slash>> \o Dec(p[2])
MaskText(n, l)  == AddrText(Mask(n, l))
RangeText(x, y) == <<LBr>> \o AddrText(x) \o <<Comma>> \o AddrText(y) \o <<RBr>>
SetText(S)      == LET ps == PrefixList(S) IN
                   <<LBr>> \o Join([i \in 1..Len(ps) |-> PrefixText(ps[i])], <<Comma, Blank>>) \o <<RBr>>

(* ---- parsing ---- *)
Positions(s, c) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = c)
(* the fields of s between occurrences of c *)
Split(s, c) == LET ps == <<0>> \o Positions(s, c) \o <<Len(s) + 1>> IN
               [i \in 1..(Len(ps) - 1) |-> SubSeq(s, ps[i] + 1, ps[i+1] - 1)]

IsOctet(s) == /\ Len(s) \in 1..3 /\ AllDigits(s, 10) /\ ValueOf(s, 10) <= 255
              /\ Len(s) > 1 => s[1] # 48
Addr4(s) == LET f == Split(s, Dot) IN
            IF Len(f) = 4 /\ \A i \in 1..4 : IsOctet(f[i])
            THEN <<ValueOf(f[1], 10) * 256 + ValueOf(f[2], 10), ValueOf(f[3], 10) * 256 + ValueOf(f[4], 10)>>
            ELSE Bad

IsGroup(s) == Len(s) \in 1..4 /\ AllDigits(s, 16)
(* colon-separated groups, the last of which may be a dotted quad if dq *)
GroupsOf(s, dq) ==
    IF s = <<>> THEN <<>>
    ELSE LET f == Split(s, Colon)  n == Len(f)  q == Addr4(f[n])
             initial == \A i \in 1..(n-1) : IsGroup(f[i])
             vals(k) == [i \in 1..k |-> ValueOf(f[i], 16)]
         IN  IF n > 8 \/ ~initial THEN Bad
             ELSE IF IsGroup(f[n]) THEN vals(n)
             ELSE IF dq /\ q # Bad THEN vals(n-1) \o q
             ELSE Bad
Doubles(s) == { i \in 1..(Len(s)-1) : s[i] = Colon /\ s[i+1] = Colon }
Addr6(s) ==
    LET d == Doubles(s) IN
    IF s = <<>> \/ Cardinality(d) > 1 THEN Bad
    ELSE IF d = {} THEN (LET g == GroupsOf(s, TRUE) IN IF g # Bad /\ Len(g) = 8 THEN g ELSE Bad)
    ELSE LET i == CHOOSE i \in d : TRUE
             x == GroupsOf(SubSeq(s, 1, i-1), FALSE)
             y == GroupsOf(SubSeq(s, i+2, Len(s)), TRUE)
         IN  IF x = Bad \/ y = Bad THEN Bad
             ELSE IF Len(x) + Len(y) > 7 THEN Bad
             ELSE x \o [k \in 1..(8 - Len(x) - Len(y)) |-> 0] \o y
AddrOfText(n, s) == IF n = 2 THEN Addr4(s) ELSE Addr6(s)

(* a decimal length without its leading zeros *)
RECURSIVE Unpadded(_)
Unpadded(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Unpadded(Tail(s)) ELSE s
IsLength(s, w) == s # <<>> /\ AllDigits(s, 10) /\ Len(Unpadded(s)) <= 3 /\ ValueOf(Unpadded(s), 10) <= w
IsPadded(s) == Unpadded(s) # s
(* the prefix a text denotes, or Bad; host bits are kept *)
SlashAt(s) == LET ps == Positions(s, Slash) IN IF ps = <<>> THEN 0 ELSE ps[1]
PrefixOfText(n, s) ==
    LET i == SlashAt(s)  a == AddrOfText(n, SubSeq(s, 1, i-1))  l == SubSeq(s, i+1, Len(s)) IN
    IF i = 0 \/ a = Bad \/ ~IsLength(l, n * B) THEN Bad ELSE <<a, ValueOf(Unpadded(l), 10)>>
PaddedLength(s) == SlashAt(s) > 0 /\ IsPadded(SubSeq(s, SlashAt(s) + 1, Len(s)))

(* ---- binary ---- *)
BytesOf(a)  == [i \in 1..(2 * Len(a)) |-> LET x == a[(i + 1) \div 2] IN IF i % 2 = 1 THEN x \div 256 ELSE x % 256]
OfBytes(bs) == [i \in 1..(Len(bs) \div 2) |-> bs[2*i - 1] * 256 + bs[2*i]]
IsMaskA(m)  == \E l \in 0..Width(m) : m = Mask(Len(m), l)
MaskLen(m)  == CHOOSE l \in 0..Width(m) : m = Mask(Len(m), l)
=============================================================================
