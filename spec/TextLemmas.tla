----------------------------- MODULE TextLemmas -----------------------------
(* Formatting and parsing agree, on all addresses built from a few groups. *)
EXTENDS Text
CONSTANTS Vals4, Vals6
VARIABLES a, n            \* an address of n limbs, chosen limb by limb
Init == a = <<>> /\ n \in {2, 8}
Next == Len(a) < n /\ UNCHANGED n /\ \E v \in (IF n = 2 THEN Vals4 ELSE Vals6) : a' = Append(a, v)
w == n * 16
RoundTrip == Len(a) = n =>
             /\ AddrOfText(n, AddrText(a)) = a
             /\ AddrOfText(IF n = 2 THEN 8 ELSE 2, AddrText(a)) = Bad
             /\ \A l \in {0, 1, 9, 10, 32, w - 1, w} : PrefixOfText(n, PrefixText(<<a, l>>)) = <<a, l>>
             /\ PrefixOfText(n, AddrText(a) \o <<Slash>> \o Dec(w + 1)) = Bad
             /\ PrefixOfText(n, AddrText(a)) = Bad
             /\ AddrOfText(n, PrefixText(<<a, w>>)) = Bad
(* every other spelling of the same address parses to it *)
Full(up) == Join([i \in 1..8 |-> LET h == Hex(a[i]) IN
                  [j \in 1..4 |-> LET c == IF j <= 4 - Len(h) THEN 48 ELSE h[j - (4 - Len(h))] IN
                                  IF up /\ c > 96 THEN c - 32 ELSE c]], <<Colon>>)
Spellings == (Len(a) = n /\ n = 8) =>
    /\ Addr6(Full(FALSE)) = a /\ Addr6(Full(TRUE)) = a
    /\ Addr6(Groups(a, 1, 6) \o <<Colon>> \o Dotted(Map4(a))) = a
    /\ \A i \in 1..8, j \in 1..8 : (i <= j /\ ZeroRun(a, i, j)) =>
            Addr6(Groups(a, 1, i-1) \o <<Colon, Colon>> \o Groups(a, j+1, 8)) = a
    /\ Addr6(Groups(a, 1, 8) \o <<Colon>>) = Bad /\ Addr6(<<Colon>> \o Groups(a, 1, 8)) = Bad
    /\ Addr6(<<Colon, Colon>> \o Groups(a, 1, 8)) = Bad
(* the canonical text is a shortest spelling among the elided ones (a run in the
   middle, which RFC 5952 prefers when it comes first, saves one colon less) *)
Canonical == (Len(a) = n /\ n = 8 /\ ~IsMapped(a)) =>
    \A i \in 1..8, j \in 1..8 : (i < j /\ ZeroRun(a, i, j)) =>
        Len(AddrText(a)) <= 1 + Len(Groups(a, 1, i-1) \o <<Colon, Colon>> \o Groups(a, j+1, 8))
Binary == Len(a) = n =>
          /\ OfBytes(BytesOf(a)) = a /\ Len(BytesOf(a)) = 2 * n
          /\ IsMaskA(a) = (\A i \in 1..(w-1) : Bit(a, i) >= Bit(a, i+1))
Masks == a = <<>> => \A l \in 0..w : IsMaskA(Mask(n, l)) /\ MaskLen(Mask(n, l)) = l
=============================================================================
