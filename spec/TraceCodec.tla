----------------------------- MODULE TraceCodec -----------------------------
(***************************************************************************)
(* Recorded executions of the real codec, checked one event at a time       *)
(* against the reference codec.  Each property has its own acceptance       *)
(* predicate OK_Cxx; the configuration selects one as EventOK.  An event    *)
(* the predicate rejects leaves the machine without a next step, which TLC  *)
(* reports as a deadlock naming the position l.                             *)
(*                                                                         *)
(* Events (op):                                                            *)
(*  enc   a value v of type ty was encoded to b (o = "ok" | "panic" |       *)
(*        "abort" | "hang"), its predicted size is len, decoding b gave d   *)
(*        ("ok", with the value dv; eq: the language's own equality with    *)
(*        the original)                                                    *)
(*  dec   the bytes b were decoded as type ty: outcome o, value v, which    *)
(*        re-encodes to re; pk/mx = peak live bytes / largest request       *)
(*  twin  the bytes b were decoded to v, the different bytes b2 to v2        *)
(*  mem   as dec, of a long input of n bytes, only the memory recorded      *)
(*  app   v was encoded through every entry point (outs), the appending     *)
(*        ones into a buffer holding pre                                   *)
(*  meta  the static size metadata of type ty on both sides                 *)
(*  far, fard, farapp  as enc, dec, app, with far values and run strings    *)
(*        (SszFar)                                                          *)
(*  tab, tabd, tabapp  the same of lists of very many variable-size items,   *)
(*        the byte strings being table strings p (SszFar); t: it is one.      *)
(*        An input that is none (t = FALSE) has a first word that does not    *)
(*        fit, or the neighbouring words w1 > w2 in its offset table.         *)
(*  died  the process died or hung in operation on of type ty               *)
(*  compile  a type definition t was accepted or rejected by the compiler   *)
(*        (side: "e", "d", or "b" for both derives)                         *)
(***************************************************************************)
EXTENDS SszDerive, SszAlloc, SszFar, Json, IOUtils, TLC

CONSTANTS EventOK(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)
Mem == IF "MEM" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.MEM) ELSE [none |-> TRUE]

(* The schemas of the universe (written by DumpUniverse from SszUniverse, so *)
(* that they are not computed again for each event).                        *)
Schemas == JsonDeserialize(IOEnv.SCHEMAS)

SE(e) == Schemas[e.ty].e
SD(e) == Schemas[e.ty].d
Symmetric(e) == SE(e) = SD(e)

EncodedRight(e) == e.o = "ok" /\ e.b = Ser(SE(e), e.v)

RoundTripOK(e) ==
  /\ e.o = "ok" /\ e.d = "ok"
  /\ e.dv = Erase(SE(e), e.v)
  /\ HasKind(SE(e), {"skip"}) \/ e.eq

(* Decoding succeeds on the valid encodings only, with the specified value. *)
DecodedForward(e) ==
  e.o = "ok" => LET r == De(SD(e), e.b) IN r.ok /\ r.v = e.v
DecodedExactly(e) ==
  LET r == De(SD(e), e.b)
  IN IF e.o = "ok" THEN r.ok /\ r.v = e.v ELSE ~r.ok

Lenient(s) == HasKind(s, {"map", "set"})

DecodedRight(e) == IF Lenient(SD(e)) THEN DecodedForward(e) ELSE DecodedExactly(e)

(* The same of far events.                                                  *)
FarEncodedRight(e) == e.o = "ok" /\ e.b = FarSer(SE(e), e.v)
FarRoundTripOK(e) ==
  /\ e.o = "ok" /\ e.d = "ok"
  /\ e.dv = FarErase(SE(e), e.v)
  /\ HasKind(SE(e), {"skip"}) \/ e.eq
FarDecodedRight(e) ==
  LET r == FarDe(SD(e), e.b)
  IN IF e.o = "ok" THEN r.ok /\ r.v = e.v ELSE ~r.ok
FarSizeOK(e) == e.o = "ok" => e.len = RLen(e.b)

(* The same of tab events.                                                  *)
TabEncodedRight(e) == e.o = "ok" /\ e.t /\ e.p = TabSer(SE(e), e.v)
TabSizeOK(e) == e.o = "ok" => /\ e.len = e.bl
                              /\ e.t => e.bl = TabLen(e.p)
TabDecodedRight(e) ==
  IF e.t
  THEN LET r == TabDe(SD(e), e.p)
       IN IF e.o = "ok" THEN r.ok /\ r.v = e.v ELSE ~r.ok \/ Lenient(SD(e))
  ELSE (\/ e.first < BytesPerOffset \/ e.first % BytesPerOffset # 0 \/ e.first > e.n
        \/ e.w1 > e.w2) => e.o # "ok"
TabCanonical(e) == e.o = "ok" => e.ro = "ok" /\ e.t /\ e.rt /\ e.re = e.p

SizeOK(e) == /\ e.o = "ok" => e.len = Len(e.b)
             /\ e.o = "ok" /\ IsFixed(SE(e)) => Len(e.b) = FixedLen(SE(e))

MetaOK(e) ==
  /\ e.o = "ok"
  /\ e.ef = IsFixed(SE(e)) /\ e.el = FixedLen(SE(e))
  /\ e.df = IsFixed(SD(e)) /\ e.dl = FixedLen(SD(e))

(* ---------------------------------------------------------------------- *)
OK_C01(e) ==
  CASE e.op = "enc" -> Symmetric(e) /\ RoundTrips(SE(e)) => RoundTripOK(e)
    [] e.op \in {"far", "tab"} -> Symmetric(e) /\ RoundTrips(SE(e)) => FarRoundTripOK(e)
    [] e.op = "died" -> e.on # "enc"
    [] OTHER -> TRUE

OK_C02(e) ==
  IF e.op = "twin" THEN e.b = e.b2 \/ e.o2 # "ok" \/ e.v # e.v2 ELSE
  IF e.op = "tabd" THEN Symmetric(e) /\ Canonical(SD(e)) => TabCanonical(e) ELSE
  e.op \in {"dec", "fard"} /\ Symmetric(e) /\ Canonical(SD(e)) /\ ~HasZeroItems(SD(e)) =>
    (e.o = "ok" => e.ro = "ok" /\ e.re = e.b)

OK_C03(e) ==
  CASE e.op = "enc" -> EncodedRight(e)
    [] e.op = "far" -> FarEncodedRight(e)
    [] e.op = "tab" -> TabEncodedRight(e)
    [] e.op = "died" -> e.on # "enc"
    [] OTHER -> TRUE

OK_C04(e) ==
  CASE e.op = "dec" -> HasZeroItems(SD(e)) \/ DecodedRight(e)
    [] e.op = "fard" -> HasZeroItems(SD(e)) \/ FarDecodedRight(e)
    [] e.op = "tabd" -> TabDecodedRight(e)
    [] e.op = "died" -> e.on = "dec" =>
         HasZeroItems(SD(e)) \/ Lenient(SD(e)) \/ ~De(SD(e), e.b).ok
    [] OTHER -> TRUE

ZeroItemList(s) ==
  IsListLike(s) /\ IsFixed(ItemSchema(s)) /\ FixedLen(ItemSchema(s)) = 0
OK_C05(e) ==
  CASE e.op \in {"dec", "mem", "fard", "tabd"} ->
         /\ e.o \in {"ok", "err"}
         (* a non-empty list of items of no length is an error *)
         /\ e.op = "dec" /\ ZeroItemList(SD(e)) /\ Len(e.b) > 0 => e.o = "err"
    [] e.op = "died" -> e.on # "dec"
    [] OTHER -> TRUE

MemBound(e) == Bound(Mem["t" \o ToString(e.ty)])
OK_C06(e) ==
  CASE e.op = "dec" -> LET bd == MemBound(e)
                       IN WithinBound(bd, Len(e.b), e.pk) /\ WithinBound(bd, Len(e.b), e.mx)
    [] e.op \in {"mem", "tabd"} -> LET bd == MemBound(e)
                       IN WithinBound(bd, e.n, e.pk) /\ WithinBound(bd, e.n, e.mx)
    [] e.op = "died" -> ~e.big          \* a request of 1 GiB or more was made
    [] OTHER -> TRUE

OK_C07(e) ==
  CASE e.op = "enc" -> SizeOK(e)
    [] e.op = "far" -> FarSizeOK(e)
    [] e.op = "tab" -> TabSizeOK(e)
    [] e.op = "dec" -> e.o = "ok" /\ IsFixed(SD(e)) => Len(e.b) = FixedLen(SD(e))
    [] e.op = "meta" ->
         /\ MetaOK(e)
         /\ Symmetric(e) => e.ef = e.df /\ e.el = e.dl
         /\ (~e.ef => e.el = BytesPerOffset) /\ (~e.df => e.dl = BytesPerOffset)
    [] e.op = "died" -> e.on # "enc"
    [] OTHER -> TRUE

DefOf(e) == e.t
Accepted(e) ==
  LET sides == IF e.side = "b" THEN {"e", "d"} ELSE {e.side}
  IN /\ (e.o = "accept" => \A s \in sides : ~Meaningless(s, DefOf(e)))
     /\ (e.o = "reject" => \E s \in sides : ~Meaningful(s, DefOf(e)))

OK_C08(e) ==
  CASE e.op = "far" -> FarEncodedRight(e) /\ FarSizeOK(e)
    [] e.op = "fard" -> FarDecodedRight(e)
    [] e.op = "tab" -> TabEncodedRight(e) /\ TabSizeOK(e)
    [] e.op = "tabd" -> TabDecodedRight(e)
    [] e.op = "enc" -> /\ EncodedRight(e)
                       /\ SizeOK(e)
                       /\ Symmetric(e) /\ RoundTrips(SE(e)) => RoundTripOK(e)
    [] e.op = "dec" -> HasZeroItems(SD(e)) \/ DecodedRight(e)
    [] e.op = "meta" -> MetaOK(e)
    [] e.op = "compile" -> Accepted(e)
    [] e.op = "died" -> FALSE
    [] OTHER -> TRUE

(* The n-th part of a container holding the same value twice.               *)
Twice(s) == [k |-> "cont", f |-> <<s, s>>]
OutOK(e, x) ==
  /\ x.o = "ok"
  /\ LET one == Ser(SE(e), e.v)
     IN CASE x.n \in {"bytes", "encode", "ref", "refT", "refref", "arc", "arcT"} -> x.b = one
          [] x.n \in {"append", "append_ref", "append_arc", "cap"} -> x.b = e.pre \o one
          [] x.n \in {"cont2", "param2", "tuple2"} ->
               x.b = e.pre \o Ser(Twice(SE(e)), <<e.v, e.v>>)
          [] x.n = "list2" -> x.b = e.pre \o Ser([k |-> "list", e |-> SE(e)], <<e.v, e.v>>)
          [] x.n = "some" -> x.b = e.pre \o <<1>> \o one

FarOutOK(e, x, one, two, both) ==
  /\ x.o = "ok"
  /\ CASE x.n \in {"bytes", "encode", "ref", "refT", "refref", "arc", "arcT"} -> x.b = one
       [] x.n \in {"append", "append_ref", "append_arc", "cap"} -> x.b = RCat(e.pre, one)
       [] x.n \in {"cont2", "param2", "tuple2"} -> x.b = RCat(e.pre, two)
       [] x.n = "list2" -> x.b = RCat(e.pre, both)
       [] x.n = "some" -> x.b = RCat(RCat(e.pre, Runs(<<1>>)), one)

OK_C10(e) ==
  CASE e.op = "app" -> \A i \in 1..Len(e.outs) : OutOK(e, e.outs[i])
    [] e.op = "farapp" ->
         LET one == FarSer(SE(e), e.v)
             two == FarSer(Twice(SE(e)), <<e.v, e.v>>)
             both == FarSer([k |-> "list", e |-> SE(e)], <<<<2, e.v>>>>)
         IN \A i \in 1..Len(e.outs) : FarOutOK(e, e.outs[i], one, two, both)
    [] e.op = "tabapp" ->
         LET one == TabSer(SE(e), e.v)
         IN \A i \in 1..Len(e.outs) :
              LET x == e.outs[i]
              IN /\ x.o = "ok" /\ x.t /\ x.p = one
                 /\ x.pre = (IF x.n \in {"append", "append_ref", "append_arc", "cap"} THEN e.pre ELSE <<>>)
    [] e.op = "died" -> e.on # "app"
    [] OTHER -> TRUE

OK_C15(e) ==
  CASE e.op = "far" -> FarEncodedRight(e) /\ FarSizeOK(e)
    [] e.op = "fard" -> FarDecodedRight(e)
    [] e.op = "tab" -> TabEncodedRight(e) /\ TabSizeOK(e)
    [] e.op = "tabd" -> TabDecodedRight(e)
    [] e.op = "enc" -> EncodedRight(e)
    [] e.op = "dec" -> HasZeroItems(SD(e)) \/ DecodedRight(e)
    [] e.op = "compile" -> Accepted(e)
    [] e.op = "died" -> FALSE
    [] OTHER -> TRUE

OK_C17(e) ==
  CASE e.op = "far" -> FarEncodedRight(e) /\ FarSizeOK(e)
    [] e.op = "fard" -> FarDecodedRight(e)
    [] e.op = "tab" -> TabEncodedRight(e) /\ TabSizeOK(e)
    [] e.op = "tabd" -> TabDecodedRight(e)
    [] e.op = "enc" -> /\ EncodedRight(e)
                       /\ e.len = Len(e.b)
                       /\ Symmetric(e) /\ RoundTrips(SE(e)) => RoundTripOK(e)
    [] e.op = "dec" -> HasZeroItems(SD(e)) \/ DecodedRight(e)
    [] e.op = "meta" -> MetaOK(e)
    [] e.op = "died" -> FALSE
    [] OTHER -> TRUE

OK_C19(e) ==
  IF e.op = "tab" THEN TabEncodedRight(e) /\ (Symmetric(e) /\ RoundTrips(SE(e)) => FarRoundTripOK(e)) ELSE
  IF e.op = "tabd" THEN TabDecodedRight(e) ELSE
  CASE e.op = "enc" -> EncodedRight(e) /\ (Symmetric(e) /\ RoundTrips(SE(e)) => RoundTripOK(e))
    [] e.op = "dec" -> \/ HasZeroItems(SD(e))
                       \/ /\ DecodedExactly(e)
                          /\ e.o = "ok" => e.ro = "ok" /\ e.re = Ser(SE(e), e.v)
    [] e.op = "died" -> FALSE
    [] OTHER -> TRUE

(* ---------------------------------------------------------------------- *)
VARIABLE l

Init == l = 1
Step == l <= Len(Trace) /\ EventOK(Trace[l]) = TRUE /\ l' = l + 1
Done == l > Len(Trace) /\ UNCHANGED l
Next == Step \/ Done
=============================================================================
