----------------------------- MODULE TextTrace ------------------------------
(***************************************************************************)
(* Trace validation of conversions: text, binary and the version-agnostic  *)
(* package.  Every event is one call; e.f is its family (2 or 8 limbs).    *)
(* A value of the agnostic package is [t |-> type, v |-> value]: type      *)
(* "a2", "a8" (address), "m2", "m8" (mask, its length in a tuple), "p2", "p8", "r2",   *)
(* "r8", "nil", or "?" for anything else.                                  *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
Ev == Traces[tid].ev
e  == Ev[l]
f  == e.f
W  == f * B
Call(o) == l <= Len(Ev) /\ e.op = o /\ e.pan = 0 /\ l' = l + 1 /\ UNCHANGED tid

(* ---- text ---- *)
AStr == Call("a.str") /\ e.out = AddrText(e.a)
PStr == Call("p.str") /\ e.out = PrefixText(e.p)
MStr == Call("m.str") /\ e.out = MaskText(f, e.len)
RStr == Call("r.str") /\ e.out = RangeText(e.x, e.y)
SStr == Call("s.str") /\ e.out = SetText(UnionAll([i \in 1..Len(e.rs) |-> RangeSet(e.rs[i][1], e.rs[i][2])]))

(* what parsing s as an address of n limbs may answer: Bad stands for an error *)
AParsed(n, s) == LET a == AddrOfText(n, s) IN
                 IF a # Bad THEN {a}
                 ELSE IF n = 2 /\ IsMapped(Addr6(s)) THEN {Bad, Map4(Addr6(s))}   \* unspecified
                 ELSE {Bad}
PParsed(n, s) == LET p == PrefixOfText(n, s) IN
                 IF p = Bad THEN {Bad} ELSE IF PaddedLength(s) THEN {p, Bad} ELSE {p}
AParse == Call("a.parse") /\ (IF e.err THEN Bad ELSE e.r) \in AParsed(f, e.s)
PParse == Call("p.parse") /\ (IF e.err THEN Bad ELSE e.r) \in PParsed(f, e.s)

(* ---- binary ---- *)
Result(r) == IF r = Bad THEN e.err ELSE ~e.err /\ e.r = r
(* addresses in bytes; nil and other sizes are errors *)
OfSlice(n, isnil, bs) == IF isnil \/ Len(bs) # 2 * n THEN Bad ELSE OfBytes(bs)
OfNetIP(n, isnil, bs) == IF n = 2 /\ ~isnil /\ Len(bs) = 16 /\ IsMapped(OfBytes(bs)) THEN Map4(OfBytes(bs))
                         ELSE OfSlice(n, isnil, bs)
ASlice == Call("a.slice") /\ Result(OfSlice(f, e.nil, e.b))
ANetIP == Call("a.netip") /\ Result(OfNetIP(f, e.nil, e.b))
AParts == Call("a.parts") /\ e.r = e.a
AWords == Call("a.words") /\ e.r = e.a
AToNet == Call("a.tonet") /\ e.r = BytesOf(e.a)
(* masks: the result is the mask's words and its length *)
MaskR(n, k)  == <<Mask(n, k), k>>
OfMask(m)    == IF IsMaskA(m) THEN MaskR(Len(m), MaskLen(m)) ELSE Bad
OfNetMask(n, isnil, bs) == IF isnil \/ Len(bs) # 2 * n THEN Bad ELSE OfMask(OfBytes(bs))
MLen   == Call("m.len")   /\ Result(IF e.len \in 0..W THEN MaskR(f, e.len) ELSE Bad)
MWords == Call("m.words") /\ Result(OfMask(e.a))
MParts == Call("m.parts") /\ Result(OfMask(e.a))
MNet   == Call("m.net")   /\ Result(OfNetMask(f, e.nil, e.b))
MToNet == Call("m.tonet") /\ e.r = BytesOf(Mask(f, e.len))
(* prefixes *)
OfNet(n, isnil, ip, mask) ==
    LET a == OfNetIP(n, ip = <<>>, ip)  m == OfNetMask(n, mask = <<>>, mask) IN
    IF isnil \/ a = Bad \/ m = Bad THEN Bad ELSE <<a, m[2]>>
PNet   == Call("p.net")   /\ Result(OfNet(f, e.nil, e.ip, e.mask))
PToNet == Call("p.tonet") /\ e.r = <<BytesOf(e.p[1]), BytesOf(Mask(f, e.p[2]))>>
PMask  == Call("p.mask")  /\ e.r = e.p

(* ---- the version-agnostic package ---- *)
Nil == [t |-> "nil", v |-> <<>>]
AnyF(t, n, v) == [t |-> t \o (IF n = 2 THEN "2" ELSE "8"), v |-> v]
FamOf(x, t) == IF x.t = t \o "2" THEN 2 ELSE IF x.t = t \o "8" THEN 8 ELSE 0
ZeroVal(t, n) == CASE t = "a" -> Zero(n) [] t = "m" -> <<0>> [] t = "p" -> <<Zero(n), 0>> [] t = "r" -> <<Zero(n), Zero(n)>>
Is(x, y) == x.t = y.t /\ x.v = y.v
Nothing(t) == Is(e.r, Nil) \/ \E n \in {2, 8} : Is(e.r, AnyF(t, n, ZeroVal(t, n)))     \* nothing half-set beside an error
(* got: the logged result; want: a value, or Nil when there must be an error *)
Agnostic(t, want) == IF want = Nil THEN e.err /\ Nothing(t) ELSE ~e.err /\ Is(e.r, want)
Either(t, v2, v8) == IF v2 # Bad THEN AnyF(t, 2, v2) ELSE IF v8 # Bad THEN AnyF(t, 8, v8) ELSE Nil

IAStr == Call("i.astr") /\ Agnostic("a", Either("a", Addr4(e.s), Addr6(e.s)))
IPStr == /\ Call("i.pstr")
         /\ \/ Agnostic("p", Either("p", PrefixOfText(2, e.s), PrefixOfText(8, e.s)))
            \/ PaddedLength(e.s) /\ e.err /\ Nothing("p")
(* binary input goes to the family of its size *)
IANet == Call("i.anet") /\ Agnostic("a", Either("a", OfSlice(2, e.nil, e.b), OfSlice(8, e.nil, e.b)))
IMNet == Call("i.mnet") /\ Agnostic("m", LET m2 == OfNetMask(2, e.nil, e.b)  m8 == OfNetMask(8, e.nil, e.b) IN
                                         Either("m", IF m2 = Bad THEN Bad ELSE <<m2[2]>>, IF m8 = Bad THEN Bad ELSE <<m8[2]>>))
IPNet == Call("i.pnet") /\ Agnostic("p", IF Len(e.ip) = 4 THEN Either("p", OfNet(2, e.nil, e.ip, e.mask), Bad)
                                         ELSE IF Len(e.ip) = 16 THEN Either("p", Bad, OfNet(8, e.nil, e.ip, e.mask))
                                         ELSE Nil)
IPfxOfAddr == Call("i.pfa") /\ Is(e.r, LET n == FamOf(e.x, "a") IN IF n = 0 THEN Nil ELSE AnyF("p", n, <<e.x.v, n * B>>))
IPfxOfAM   == Call("i.pfam") /\ LET n == FamOf(e.x, "a") IN
              Agnostic("p", IF n = 0 \/ FamOf(e.y, "m") # n THEN Nil ELSE AnyF("p", n, <<e.x.v, e.y.v[1]>>))
IAddrOfPfx == Call("i.afp") /\ Is(e.r, LET n == FamOf(e.x, "p") IN IF n = 0 THEN Nil ELSE AnyF("a", n, e.x.v[1]))
IMaskOfPfx == Call("i.mfp") /\ Is(e.r, LET n == FamOf(e.x, "p") IN IF n = 0 THEN Nil ELSE AnyF("m", n, <<e.x.v[2]>>))
IRngOfPfx  == Call("i.rfp") /\ Is(e.r, LET n == FamOf(e.x, "p") IN IF n = 0 THEN Nil ELSE AnyF("r", n, <<First(e.x.v), LastOf(e.x.v)>>))
IRngOfAA   == Call("i.rfa") /\ LET n == FamOf(e.x, "a") IN
              IF n = 0 \/ FamOf(e.y, "a") # n THEN e.err /\ Nothing("r")
              ELSE IF Lt(e.y.v, e.x.v) THEN ~e.err /\ e.empty
              ELSE ~e.err /\ ~e.empty /\ Is(e.r, AnyF("r", n, <<e.x.v, e.y.v>>))
IFirst == Call("i.first") /\ Is(e.r, LET n == FamOf(e.x, "r") IN IF n = 0 THEN Nil ELSE AnyF("a", n, e.x.v[1]))
ILast  == Call("i.last")  /\ Is(e.r, LET n == FamOf(e.x, "r") IN IF n = 0 THEN Nil ELSE AnyF("a", n, e.x.v[2]))
(* the methods of the common interfaces are the family's own *)
IFaceA == Call("i.ifa") /\ e.str = AddrText(e.x.v) /\ e.net = BytesOf(e.x.v) /\ e.bits = Len(e.x.v) * B
IFaceM == Call("i.ifm") /\ LET n == FamOf(e.x, "m") IN
          e.str = MaskText(n, e.x.v[1]) /\ e.net = BytesOf(Mask(n, e.x.v[1])) /\ e.len = e.x.v[1]
IFaceP == Call("i.ifp") /\ LET n == FamOf(e.x, "p") IN
          e.str = PrefixText(e.x.v) /\ e.net = <<BytesOf(e.x.v[1]), BytesOf(Mask(n, e.x.v[2]))>> /\ e.len = e.x.v[2]
IFaceR == Call("i.ifr") /\ e.str = RangeText(e.x.v[1], e.x.v[2])

Finished == l > Len(Ev) /\ UNCHANGED vars
TraceNext ==
    \/ AStr \/ PStr \/ MStr \/ RStr \/ SStr \/ AParse \/ PParse
    \/ ASlice \/ ANetIP \/ AParts \/ AWords \/ AToNet \/ MLen \/ MWords \/ MParts \/ MNet \/ MToNet \/ PNet \/ PToNet \/ PMask
    \/ IAStr \/ IPStr \/ IANet \/ IMNet \/ IPNet \/ IPfxOfAddr \/ IPfxOfAM \/ IAddrOfPfx \/ IMaskOfPfx \/ IRngOfPfx \/ IRngOfAA
    \/ IFirst \/ ILast \/ IFaceA \/ IFaceM \/ IFaceP \/ IFaceR
    \/ Finished
=============================================================================
