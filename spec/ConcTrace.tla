------------------------------- MODULE ConcTrace -------------------------------
(***************************************************************************)
(* Overlapping calls recorded from the real code, judged by the monitor of *)
(* Lin.  Each line of the file named by TRACE is one history of one        *)
(* mutable object:                                                         *)
(*   {"n": limbs, "k": "t" or "s", "m": comparison, "init": contents,      *)
(*    "ev": [{"op":"call","c":id,"o":...}, {"op":"ret","c":id,...}, ...]}  *)
(* The history is rejected at event l when no explanation is left, which   *)
(* TLC reports as a deadlock.                                              *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, confs, pend, over
tr == Traces[tid]
e == tr.ev[l]

TMods == {"ins", "upd", "iou", "goi", "rem"}
SMods == {"ins", "rem"}
CallModifies(call) == IF call.k = "t" THEN call.o \in TMods ELSE call.o \in SMods
(* the result of a read is the version that it saw *)
CallEffect(c, call) ==
    IF ~CallModifies(call) THEN [c |-> c, r |-> c]
    ELSE IF call.k = "t" THEN LET f == Modified(c, call.o, call.p, call.v) IN [c |-> f.t, r |-> f.r]
    ELSE [c |-> IF call.o = "ins" THEN Union(c, PlainSet(call.y)) ELSE Minus(c, PlainSet(call.y)), r |-> TRUE]
INSTANCE Lin WITH Effect <- CallEffect, Modification <- CallModifies

TableOf(m, out) == [m |-> m, f |-> [k \in { Masked(out[i][1]) : i \in 1..Len(out) } |->
                    out[CHOOSE i \in 1..Len(out) : Masked(out[i][1]) = k][2]]]
Contents == IF tr.k = "s" THEN Coalesce([i \in 1..Len(tr.init) |-> tr.init[i]])
            ELSE TableOf(tr.m, tr.init)
(* another object, which is only read *)
OtherContents(of) == IF tr.k = "s" THEN Coalesce([i \in 1..Len(of) |-> of[i]]) ELSE TableOf(tr.m, of)
Keysof(out) == [i \in 1..Len(out) |-> Masked(out[i][1])]
(* an operand that is the object itself is seen at one moment too *)
Operand(y, now) == IF y.k = "m" THEN now ELSE PlainSet(y)
Observed(call, now) ==
    LET r == IF call.o = "old" THEN Contents                  \* a snapshot taken before
             ELSE IF "of" \in DOMAIN call THEN OtherContents(call.of) ELSE now IN
    CASE call.k = "s" /\ call.o \in {"list", "old"} -> IsPrefixList(e.out, r)
      [] call.k = "s" /\ call.o = "contains" -> e.r = Subset(PlainSet(call.y), r)
      [] call.k = "s" /\ call.o \in {"u", "i", "d"} -> IsPrefixList(e.out, SetAlgebra(call.o, r, PlainSet(call.y)))
      [] call.k = "s" /\ call.o \in {"ou", "oi", "od"} ->
             IsPrefixList(e.out, SetAlgebra(CASE call.o = "ou" -> "u" [] call.o = "oi" -> "i" [] call.o = "od" -> "d",
                                            Contents, Operand(call.y, now)))
      [] call.k = "s" /\ call.o = "oc" -> e.r = Subset(Operand(call.y, now), Contents)
      [] call.k = "s" /\ call.o = "pc" -> e.r = Subset(now, PlainSet([k |-> "p", p |-> call.p]))
      [] call.k = "s" /\ call.o = "snum" -> (tr.n = 8 /\ e.r = <<-1>>) \/ e.r = NumAddrs(r)
      [] call.k = "s" /\ call.o = "snp" ->
             IF call.l > tr.n * B THEN e.err \/ r = Empty
             ELSE LET x == NumPrefixes(r, call.l) IN IF FitsBits(x, 64) THEN ~e.err /\ e.r = x ELSE e.err
      [] call.k = "s" /\ call.o = "swr" -> e.out = r
      [] call.k = "s" /\ call.o = "swp" -> IsPrefixList(e.out, r)
      [] call.k = "s" /\ call.o = "sfind" ->
             LET y == PlainSet(call.y) IN
             IF call.l <= tr.n * B /\ CanAlloc(r, y, call.l)
             THEN ~e.err /\ e.q[2] = call.l /\ Masked(e.q) = e.q /\ BestFit(r, y, call.l, e.q)
             ELSE e.err
      [] call.k = "s" /\ call.o \in {"eq", "eqr"} -> e.r = (r = Coalesce([i \in 1..Len(call.rs) |-> call.rs[i]]))
      [] call.k = "s" /\ call.o = "empty" -> e.r = (r = Empty)
      [] call.k = "t" /\ call.o \in {"list", "old"} -> /\ IsListing(Keysof(e.out), DOMAIN r.f)
                                            /\ \A i \in 1..Len(e.out) : Eqv(r.m, e.out[i][2], r.f[Masked(e.out[i][1])])
      [] call.o = "agg" -> LET u == TableOf(r.m, e.out) IN
                           /\ IsListing(Keysof(e.out), DOMAIN u.f)
                           /\ IsAggregate(r, u, tr.n) /\ Irreducible(u)
      [] call.o = "map" -> /\ IsListing(Keysof(e.out), DOMAIN r.f)
                           /\ \A i \in 1..Len(e.out) : Eqv(r.m, e.out[i][2], r.f[Masked(e.out[i][1])] + 1)
      [] call.o = "diff" -> /\ IsListing([i \in 1..Len(e.out) |-> e.out[i][2]], DOMAIN r.f \cup DOMAIN Contents.f)
                            /\ \A i \in 1..Len(e.out) : e.out[i][1] = DiffKind(r, Contents, e.out[i][2])
      [] call.o = "get" -> e.found = Has(r, call.p) /\ (e.found => Eqv(r.m, e.v, Val(r, call.p)))
      [] call.o = "lpm" -> LET k == LPM(r, call.p) IN
                           e.found = (k # NoMatch) /\ (e.found => Masked(e.q) = k /\ Eqv(r.m, e.v, r.f[k]))
      [] call.o = "num" -> e.r = Cardinality(DOMAIN r.f)
      [] call.o = "goi" -> Eqv(tr.m, e.v, r)
      [] OTHER -> e.r = r

ConcInit == StoreInit /\ tid \in 1..Len(Traces) /\ l = 1 /\ LinInit(Contents)
Step == l' = l + 1 /\ UNCHANGED <<svars, tid>>
TCall == l <= Len(tr.ev) /\ e.op = "call" /\ CallStarts(e.c, e) /\ Step
TRet  == /\ l <= Len(tr.ev) /\ e.op = "ret" /\ e.pan = 0
         /\ CallReturns(e.c, LAMBDA r : Observed(pend[e.c], r))
         /\ confs' # {} /\ Step
TPan  == l <= Len(tr.ev) /\ e.op = "ret" /\ e.pan = 1 /\ CallPanics(e.c) /\ confs' # {} /\ Step
End   == l > Len(tr.ev) /\ UNCHANGED <<svars, tid, l, confs, pend, over>>
-----------------------------------------------------------------------------
(* Very many overlapping calls.  burst: calls that each insert (or remove)  *)
(* a prefix of its own.  Whatever their order, those that returned took     *)
(* effect and those that panicked did not (see Burst).   *)
TBurst == /\ l <= Len(tr.ev) /\ e.op = "burst" /\ e.pan = 0
          /\ e.wrong = 0 /\ e.odd = 0
          /\ e.n = IF e.o = "rem" THEN e.pre - e.ret ELSE e.pre + e.ret
          /\ Step /\ UNCHANGED <<confs, pend, over>>
(* cycle: a single writer repeats a cycle of modifications, none of which   *)
(* may panic; confs becomes the set of all versions that readers can see    *)
RECURSIVE Versions(_, _)
Versions(c, mods) == {c} \cup (IF mods = <<>> THEN {} ELSE Versions(CallEffect(c, mods[1]).c, Tail(mods)))
TCycle == /\ l <= Len(tr.ev) /\ e.op = "cycle" /\ e.pan = 0 /\ e.bad = 0
          /\ confs' = { [c |-> c, done |-> <<>>] : c \in UNION { Versions(x.c, e.mods) : x \in confs } }
          /\ Step /\ UNCHANGED <<pend, over>>
TSaw   == /\ l <= Len(tr.ev) /\ e.op = "saw" /\ e.pan = 0
          /\ \E x \in confs : Observed(e, x.c)
          /\ Step /\ UNCHANGED <<confs, pend, over>>
ConcNext == TCall \/ TRet \/ TPan \/ TBurst \/ TCycle \/ TSaw \/ End
=============================================================================
