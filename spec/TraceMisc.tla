----------------------------- MODULE TraceMisc -----------------------------
(***************************************************************************)
(* Recorded executions of the byte-level building blocks of the library.    *)
(*                                                                         *)
(* Events (op):                                                            *)
(*  build   items of these kinds were registered (length of a fixed-size    *)
(*          item, -1 for a variable-size one), the builder built and every  *)
(*          item decoded, stopping at the first error; items: the bytes     *)
(*          each was handed                                                *)
(*  limit   a list of variable-size items was decoded into the collection   *)
(*          coll with limit m (-1: none): calls = items decoded, pk = peak  *)
(*          memory.  An item starting with 238 does not decode.             *)
(*  encode  a container encoder was given parts (fixed: which are          *)
(*          fixed-size) after the bytes pre                                 *)
(*  encodelong  the same with long parts: words = the offset words, n = the *)
(*          total length, same = the parts are in their places              *)
(*  buildfar, encodefar  build and encode with byte strings as run strings   *)
(*          (SszFar)                                                        *)
(*  limittab  limit on a list of very many items: n = length of the input,   *)
(*          first = its first word, p = its items as a table string; if it   *)
(*          has no table string, words w1 > w2 next to each other in its     *)
(*          table show that, unless the first word does                      *)
(*  tree    the same with containers nested in containers: t (SszTree)      *)
(*  word    n (4 digits) through the offset encoder, and b through the      *)
(*          offset reader                                                   *)
(*  readoff b through the offset reader                                     *)
(*  split, selnew   union selector splitting and validation                 *)
(*  deep    the encoding of a value of the recursive type def, nested depth *)
(*          levels deep, was decoded in a process of its own: o = how it      *)
(*          ended                                                           *)
(*  rec     n bytes were decoded into the recursive type def: pk = peak      *)
(*          memory, mx = largest request                                   *)
(*  died    the process died                                               *)
(***************************************************************************)
EXTENDS SszList, SszTree, SszFar, SszAlloc, Json, IOUtils

CONSTANTS EventOK(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* ---------------------------------------------------------------------- *)
(* Decoder builder.                                                        *)
BuildOK(e) ==
  LET t == Tile(e.kinds, e.b)
  IN IF t.ok THEN e.o = "ok" /\ e.items = t.v ELSE e.o = "err"
BuildFarOK(e) ==
  LET t == RTile(e.kinds, e.b)
  IN IF t.ok THEN e.o = "ok" /\ e.items = t.v ELSE e.o = "err"

(* ---------------------------------------------------------------------- *)
(* Lists with limits and fallible collections.                             *)
(* What refusing may allocate: the error itself.                            *)
RefusalMemory == 512

LimitOK(e) ==
  IF OverLimit(e.m, e.b)
  THEN e.o = "err" /\ e.calls = 0 /\ e.pk <= RefusalMemory
  ELSE LET u == Unlimited(e.coll, e.b)
       IN IF u.ok THEN e.o = "ok" /\ e.items = u.v ELSE e.o = "err"

(* A list of very many items.                                              *)
LimitTabOK(e) ==
  LET announced == e.first \div BytesPerOffset
      bad == \E i \in 1..Len(e.p) : LET x == e.p[i][2] IN x # <<>> /\ x[1][2] = 238
      picked == \E i \in 1..Len(e.p) : LET x == e.p[i][2] IN x # <<>> /\ x[1][2] = 221
      n == TabCount(e.p)
      refused == CASE e.coll = "bounded0" -> n > 0
                   [] e.coll = "bounded1" -> n > 1
                   [] e.coll = "bounded3" -> n > 3
                   [] e.coll = "late2" -> n > 2
                   [] e.coll = "picky" -> picked
                   [] OTHER -> FALSE
  IN IF e.m >= 0 /\ announced > e.m
     THEN e.o = "err" /\ e.calls = 0 /\ e.pk <= RefusalMemory
     ELSE IF e.t
     THEN /\ n = announced /\ TabLen(e.p) = e.n
          /\ IF bad \/ refused THEN e.o = "err"
             ELSE /\ e.o = "ok"
                  /\ e.items = IF e.coll = "set"
                                THEN LET xs == CollectInto("set", Force([i \in 1..Len(e.p) |-> Plain(e.p[i][2])]))
                                     IN Force([i \in 1..Len(xs) |-> <<1, Runs(xs[i])>>])
                                ELSE e.p
     ELSE /\ e.first < BytesPerOffset \/ e.first % BytesPerOffset # 0 \/ e.first > e.n \/ e.w1 > e.w2
          /\ e.o = "err"

(* ---------------------------------------------------------------------- *)
(* Container encoder.                                                      *)
EncodeOK(e) == e.o = "ok" /\ e.b = e.pre \o Assemble(e.fixed, e.parts)
EncodeFarOK(e) == e.o = "ok" /\ e.b = RCat(e.pre, RAssemble(e.fixed, e.parts))

(* Encoders nested in encoders.                                             *)
TreeOK(e) == e.o = "ok" /\ e.b = e.pre \o SerTree(e.t)

EncodeLongOK(e) ==
  LET n == Len(e.parts)
      isFixed(i) == e.parts[i][1] = 1
      fixedEnd == SumSeq([i \in 1..n |-> IF isFixed(i) THEN e.parts[i][2] ELSE BytesPerOffset])
      vs == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~isFixed(i))
      start(j) == fixedEnd + SumSeq([k \in 1..(j - 1) |-> e.parts[vs[k]][2]])
  IN /\ e.o = "ok" /\ e.same
     /\ e.n = e.pre + fixedEnd + SumSeq([k \in 1..Len(vs) |-> e.parts[vs[k]][2]])
     /\ e.words = [j \in 1..Len(vs) |-> OffsetWord(start(j))]

(* ---------------------------------------------------------------------- *)
(* Offset words.  dec: the offset read, as 8 digits.                        *)
ReadOK(e) ==
  IF Len(e.b) < BytesPerOffset THEN e.o = "err"
  ELSE e.o = "ok" /\ e.dec = <<0, 0, 0, 0>> \o LEToDigits(SubSeq(e.b, 1, BytesPerOffset))
WordOK(e) == e.eo = "ok" /\ e.enc = DigitsToLE(e.n) /\ ReadOK(e)

(* ---------------------------------------------------------------------- *)
SplitOK(e) ==
  IF Len(e.b) >= 1 /\ e.b[1] <= 127
  THEN e.o = "ok" /\ e.sel = e.b[1] /\ e.rest = Tail(e.b)
  ELSE e.o = "err"
SelNewOK(e) == IF e.n <= 127 THEN e.o = "ok" /\ e.sel = e.n ELSE e.o = "err"

(* ---------------------------------------------------------------------- *)
OK_C05(e) ==
  CASE e.op = "died" -> FALSE
    [] e.op = "word" -> e.o \in {"ok", "err"} \* the reader; the encoder is not a decoder
    [] OTHER -> e.o \in {"ok", "err"}

OK_C06(e) ==
  CASE e.op = "rec" -> LET bd == RecBound(Rec(e.def))
                       IN WithinBound(bd, e.n, e.pk) /\ WithinBound(bd, e.n, e.mx)
    [] e.op = "died" -> FALSE            \* a request of 1 GiB or more was made

OK_C09(e) ==
  CASE e.op = "build" -> BuildOK(e)
    [] e.op = "buildfar" -> BuildFarOK(e)
    [] e.op = "limit" -> LimitOK(e)
    [] e.op = "limittab" -> LimitTabOK(e)
    [] e.op = "word" -> WordOK(e)
    [] e.op = "readoff" -> ReadOK(e)
    [] e.op = "died" -> FALSE

OK_C10(e) ==
  CASE e.op = "encode" -> EncodeOK(e)
    [] e.op = "encodefar" -> EncodeFarOK(e)
    [] e.op = "encodelong" -> EncodeLongOK(e)
    [] e.op = "tree" -> TreeOK(e)
    [] e.op = "died" -> FALSE

OK_C15(e) ==
  CASE e.op = "split" -> SplitOK(e)
    [] e.op = "selnew" -> SelNewOK(e)
    [] e.op = "died" -> FALSE

OK_C16(e) ==
  CASE e.op = "limit" -> LimitOK(e)
    [] e.op = "limittab" -> LimitTabOK(e)
    [] e.op = "died" -> FALSE

(* ---------------------------------------------------------------------- *)
VARIABLE l

Init == l = 1
Step == l <= Len(Trace) /\ EventOK(Trace[l]) = TRUE /\ l' = l + 1
Done == l > Len(Trace) /\ UNCHANGED l
Next == Step \/ Done
=============================================================================
