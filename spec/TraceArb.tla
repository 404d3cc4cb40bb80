------------------------------ MODULE TraceArb ------------------------------
(***************************************************************************)
(* Recorded generations of bitfields from unstructured bytes.               *)
(*  gen    from the bytes in, along the way via: outcome o; for a value its *)
(*         length len, bits v, bytes in place by, SSZ encoding enc, and     *)
(*         what decoding that gave (back)                                   *)
(*  reach  of tried inputs ok gave a value of the type                      *)
(*  nobuild  the library builds, but not with the feature                   *)
(***************************************************************************)
EXTENDS SszBitfield, Json, IOUtils

CONSTANTS EventOK(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)

GenOK(e) ==
  CASE e.o = "err" -> TRUE
    [] e.o = "ok" ->
         LET s == BitSchema(e.k, e.n)
         IN /\ ValidLen(e.k, e.n, e.len) /\ Len(e.v) = e.len
            /\ WellTyped(s, e.v)
            /\ e.by = PackBits(e.v)
            /\ e.enc = Ser(s, e.v) /\ De(s, e.enc) = Good(e.v)
            /\ e.back = "same"
    [] OTHER -> FALSE \* a panic, in the generator or on looking at its value

OK_C20(e) ==
  CASE e.op = "gen" -> e.n >= 1 => GenOK(e)
    [] e.op = "reach" -> e.n >= 1 => e.ok >= 1
    [] e.op = "died" -> FALSE
    [] e.op = "nobuild" -> FALSE

VARIABLE l
Init == l = 1
Step == l <= Len(Trace) /\ EventOK(Trace[l]) = TRUE /\ l' = l + 1
Done == l > Len(Trace) /\ UNCHANGED l
Next == Step \/ Done
=============================================================================
