----------------------------- MODULE TraceBits -----------------------------
(***************************************************************************)
(* Recorded executions of the bitfield types against sequences of booleans. *)
(*                                                                         *)
(* Events; k, n: the type.  An observation is [o |-> "none"] (no value),    *)
(* [o |-> "panic"] or a record: n length, e empty, g each bit by get, it by *)
(* iteration, c number set, hi highest set, z all zero, by the bytes in     *)
(* place, rb into_raw_bytes, enc SSZ encoding, ib into_bytes, sl the length *)
(* announced for the encoding, oob reading past the end failed, h hash.     *)
(*  start  a history begins: no handle holds a value                        *)
(*  new, default, decode, bytes, set, shift, diffin, clone, and inter,      *)
(*  union, diff of the handles g and i                                      *)
(*         on handle h: outcome o, then the observations of all handles     *)
(*         and eq, comparing every two (1 equal, 0 not, 2 not comparable)   *)
(*  pair   set operations on operands with bits a and b: r, sub             *)
(*  got    a value obtained along the path p (asked for req bits, from the  *)
(*         bytes b, or cloned into, from a value of req bits)               *)
(*  resize the list with bits a to capacity m                               *)
(*  api    b through the byte constructor (fb; length len, dynamic only)    *)
(*         and SSZ decoding (de); out: the values made, back to bytes       *)
(*  out    the value with bits a to bytes                                   *)
(*  ser, des   through serde: strings are sequences of code points          *)
(*  died   the process died                                                *)
(***************************************************************************)
EXTENDS SszBitfield, Json, IOUtils

CONSTANTS EventOK(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,     \* the event to be judged
          regs   \* of the current history: per handle <<>> or <<bits>>

Handles == 1..3
NoRegs == <<<<>>, <<>>, <<>>>>

(* The same bits by other ways of iterating (2: nothing there): from place  *)
(* i with nth, then the next, then nth again; every st[2]-th from st[1] on; *)
(* the last; their number; and a truthful size_hint.                        *)
Place(a, i) == IF i < Len(a) THEN a[i + 1] ELSE 2
IterIs(a, o) ==
  /\ \A j \in 1..Len(o.nx) :
       LET q == o.nx[j]
       IN q[2] = Place(a, q[1]) /\ q[3] = Place(a, q[1] + 1) /\ q[4] = Place(a, 2 * q[1] + 2)
  /\ Len(o.st[3]) = (IF Len(a) > o.st[1] THEN CeilDiv(Len(a) - o.st[1], o.st[2]) ELSE 0)
  /\ \A j \in 1..Len(o.st[3]) : o.st[3][j] = Place(a, o.st[1] + (j - 1) * o.st[2])
  /\ o.ls = (IF a = <<>> THEN 2 ELSE a[Len(a)])
  /\ o.ct = Len(a) /\ o.hint

(* An observation of the value with bits a.                                 *)
ObsIs(e, a, o) ==
  LET s == BitSchema(e.k, e.n)
      enc == Ser(s, a)
  IN /\ o.o = "ok"
     /\ o.n = Len(a) /\ o.e = (Len(a) = 0)
     /\ o.g = a /\ o.it = a
     /\ o.c = NumOnes(a) /\ o.hi = Highest(a) /\ o.z = (Ones(a) = {})
     /\ o.by = PackBits(a) /\ o.rb = o.by
     /\ o.enc = enc /\ o.ib = enc /\ o.sl = Len(enc)
     /\ o.oob
     /\ IterIs(a, o)

(* ---------------------------------------------------------------------- *)
(* C11.  What the outcome of an operation has to be: [ok, v], or anything.  *)
Free == [ok |-> TRUE, free |-> TRUE]
Ask(e) ==
  CASE e.op = "new" -> NewOf(e.k, e.n, e.i)
    [] e.op = "default" -> Good(DefaultBits(e.k, e.n))
    [] e.op \in {"decode", "bytes"} -> De(BitSchema(e.k, e.n), e.b)
    [] e.op = "set" -> SetOf(regs[e.h][1], e.i, e.x)
    [] e.op = "shift" -> ShiftOf(regs[e.h][1], e.i)
    [] e.op = "diffin" -> Good(DiffOf(e.k, regs[e.h][1], regs[e.g][1]))
    [] e.op = "clone" -> Good(regs[e.g][1])
    [] e.op = "inter" -> Good(InterOf(e.k, regs[e.g][1], regs[e.i][1]))
    [] e.op = "union" -> Good(UnionOf(e.k, regs[e.g][1], regs[e.i][1]))
    [] e.op = "diff" -> Good(DiffOf(e.k, regs[e.g][1], regs[e.i][1]))

Creates(e) == e.op \in {"new", "default", "decode", "bytes"}
SetOp(e) == e.op \in {"inter", "union", "diff"}

(* A constructor that takes what it should refuse is for C13 and C14 to     *)
(* judge, and the result of a set operation for C12: here the value made    *)
(* has to behave like the bits it shows.                                    *)
After(e) ==
  LET want == Ask(e)
  IN CASE e.o = "panic" -> Fail
       [] e.o = "ok" /\ SetOp(e) /\ e.obs[e.h].o = "ok" ->
            Good([regs EXCEPT ![e.h] = <<e.obs[e.h].g>>])
       [] e.o = "ok" /\ want.ok -> Good([regs EXCEPT ![e.h] = <<want.v>>])
       [] e.o = "err" /\ ~want.ok -> Good(regs)
       [] e.o = "ok" /\ ~want.ok /\ Creates(e) /\ e.obs[e.h].o = "ok" ->
            Good([regs EXCEPT ![e.h] = <<e.obs[e.h].g>>])
       [] OTHER -> Fail

HistOK(e, rs) ==
  /\ \A h \in Handles :
       IF rs[h] = <<>> THEN e.obs[h].o = "none" ELSE ObsIs(e, rs[h][1], e.obs[h])
  /\ \A h \in Handles, g \in Handles :
       e.eq[3 * (h - 1) + g] =
         IF rs[h] = <<>> \/ rs[g] = <<>> THEN 2
         ELSE IF rs[h] = rs[g] THEN 1 ELSE 0
  /\ \A h \in Handles, g \in Handles :
       rs[h] # <<>> /\ rs[h] = rs[g] => e.obs[h].h = e.obs[g].h

OK_C11(e) ==
  CASE e.op = "died" -> FALSE
    [] e.op = "start" -> TRUE
    [] OTHER -> LET r == After(e) IN r.ok /\ HistOK(e, r.v)

(* ---------------------------------------------------------------------- *)
(* C12.                                                                    *)
PairOK(e) ==
  LET W(f) == CASE f = "inter" -> InterOf(e.k, e.a, e.b)
                [] f = "union" -> UnionOf(e.k, e.a, e.b)
                [] OTHER -> DiffOf(e.k, e.a, e.b)
  IN /\ \A i \in 1..Len(e.r) : e.r[i].o = "ok" /\ ObsIs(e, W(e.r[i].f), e.r[i].v)
     /\ e.sub = "none" \/ e.sub = (IF SubsetOf(e.a, e.b) THEN "true" ELSE "false")
OK_C12(e) == e.op = "pair" /\ PairOK(e)

(* ---------------------------------------------------------------------- *)
(* C13.  A value shows how many bits it holds in several ways.              *)
HoldsLen(o, len) ==
  o.o = "ok" /\ o.n = len /\ Len(o.g) = len /\ Len(o.it) = len /\ Len(o.by) = BytesForBits(len)

GotOK(e) ==
  LET s == BitSchema(e.k, e.n)
      held == e.o = "ok" =>
                e.v.o = "ok" /\ ValidLen(e.k, e.n, e.v.n) /\ HoldsLen(e.v, e.v.n)
  IN /\ e.o \in {"ok", "err"} /\ held
     /\ CASE e.p \in {"new", "default"} ->
               LET w == NewOf(e.k, e.n, e.req) IN e.o = "ok" => w.ok /\ e.v.n = Len(w.v)
          [] e.p \in {"bytes", "decode", "serde", "serdevalue", "serdereader"} ->
               (* the number of bits the bytes hold, whatever else is wrong   *)
               e.o = "ok" =>
                 CASE e.k = "bitvec" -> Len(e.b) = BytesForBits(e.n)
                   [] e.k = "bitdyn" -> e.v.n = 8 * Len(e.b)
                   [] OTHER -> LET w == De([k |-> "bitlist", n |-> 1000000], e.b)
                               IN w.ok => e.v.n = Len(w.v)
          [] e.p = "withlen" -> e.o = "ok" => e.v.n = e.req /\ e.req = 8 * Len(e.b)
          [] e.p = "cloned" -> e.o = "ok" => e.v.n = e.req
          [] e.p \in {"inter", "union", "diff", "mutated"} -> TRUE

ResizedOK(e) ==
  IF e.m >= e.n
  THEN e.o = "ok" /\ e.v.o = "ok" /\ HoldsLen(e.v, e.v.n) /\ ResizeOK(e.a, e.m, e.v.g)
  ELSE e.o = "err"

OK_C13(e) ==
  CASE e.op = "got" -> GotOK(e)
    [] e.op = "resize" -> ResizedOK(e)
    [] e.op = "died" -> FALSE

(* ---------------------------------------------------------------------- *)
(* C14.                                                                    *)
Same(w, r) == IF w.ok THEN r.o = "ok" /\ r.v = w.v ELSE r.o = "err"
ApiOK(e) ==
  LET w == De(BitSchema(e.k, e.n), e.b)
  IN /\ Same(w, e.de)
     /\ Same(IF e.k = "bitdyn" /\ e.len # 8 * Len(e.b) THEN Fail ELSE w, e.fb)
     /\ \A i \in 1..Len(e.out) :
          e.out[i].o = "ok" /\ e.out[i].ib = e.b /\ e.out[i].enc = e.b
OutOK(e) ==
  e.o = "ok" /\ e.ib = Ser(BitSchema(e.k, e.n), e.a) /\ e.enc = e.ib
OK_C14(e) ==
  CASE e.op = "api" -> ApiOK(e)
    [] e.op = "out" -> OutOK(e)
    [] e.op = "died" -> FALSE

(* ---------------------------------------------------------------------- *)
(* C18.                                                                    *)
SerdeSerOK(e) ==
  /\ e.o = "ok" /\ e.s = HexOf(Ser(BitSchema(e.k, e.n), e.a))
  /\ e.back.o = "ok" /\ e.back.v = e.a
SerdeDesOK(e) ==
  LET b == UnHex(e.s)
      w == IF b.ok THEN De(BitSchema(e.k, e.n), b.v) ELSE Fail
  IN /\ Same(w, e.str) /\ Same(w, e.reader) /\ Same(w, e.value)
     (* a format that is not human-readable hands over the very string      *)
     /\ Same(w, e.lent) /\ Same(w, e.owned) /\ Same(w, e.brief)
OK_C18(e) ==
  CASE e.op = "ser" -> SerdeSerOK(e)
    [] e.op = "des" -> SerdeDesOK(e)
    [] e.op = "died" -> FALSE

(* ---------------------------------------------------------------------- *)
OK_C05(e) ==
  CASE e.op = "api" -> e.fb.o \in {"ok", "err"} /\ e.de.o \in {"ok", "err"}
    [] e.op = "got" -> e.p \in {"bytes", "decode", "serde", "serdevalue", "serdereader", "withlen"}
                         => e.o \in {"ok", "err"}
    [] e.op \in {"out", "resize"} -> TRUE
    [] e.op = "des" -> \A r \in {e.str, e.reader, e.value, e.lent, e.owned, e.brief} : r.o \in {"ok", "err"}
    [] e.op = "died" -> FALSE

(* ---------------------------------------------------------------------- *)
Init == l = 1 /\ regs = NoRegs
IsHist(e) == e.op \in {"new", "default", "decode", "bytes", "set", "shift", "diffin", "clone",
                      "inter", "union", "diff"}
Step ==
  /\ l <= Len(Trace)
  /\ EventOK(Trace[l]) = TRUE
  /\ regs' = CASE Trace[l].op = "start" -> NoRegs
               [] IsHist(Trace[l]) -> After(Trace[l]).v
               [] OTHER -> regs
  /\ l' = l + 1
Done == l > Len(Trace) /\ UNCHANGED <<l, regs>>
Next == Step \/ Done
=============================================================================
