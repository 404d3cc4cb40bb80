------------------------------- MODULE SszArbM -------------------------------
(***************************************************************************)
(* Generating a bitfield from unstructured bytes, as a machine: for a       *)
(* bitlist a size is drawn (no more than the capacity), then so many bytes  *)
(* are taken from the source, which gives zeros once it has run out, and    *)
(* the result has to be a valid encoding.                                  *)
(*                                                                         *)
(* Every accepted source gives a value of the type; of every capacity from 1 *)
(* on every value of the type can be reached.  The sources are replayed     *)
(* into the real generators (which may use them otherwise: only what comes  *)
(* out is judged).                                                         *)
(***************************************************************************)
EXTENDS SszBitfield, Emit

CONSTANTS Caps, Alphabet, MaxTake, MaxCap

VARIABLES k, n,     \* the type
          ph,       \* "start", "fill", "done"
          size,     \* bytes to take
          src       \* those the source had
vars == <<k, n, ph, size, src>>

S == BitSchema(k, n)
Need == CeilDiv(n, 8)

Init == /\ k \in {"bitlist", "bitvec"} /\ n \in Caps
        /\ ph = "start" /\ size = 0 /\ src = <<>>

(* Beyond what the type can need, one size is like another.                 *)
Draw == /\ ph = "start" /\ ph' = "fill"
        /\ size' \in (IF k = "bitvec" THEN {MaxOf(1, Need)}
                      ELSE {x \in 0..(CeilDiv(n + 1, 8) + 1) : x <= n})
        /\ UNCHANGED <<k, n, src>>
(* The last bytes matter most; at most MaxTake of them are not 255.         *)
Take == /\ ph = "fill" /\ Len(src) < size
        /\ \E x \in (IF size - Len(src) <= MaxTake THEN Alphabet ELSE {255}) : src' = Append(src, x)
        /\ UNCHANGED <<k, n, ph, size>>
Stop == /\ ph = "fill" /\ ph' = "done" /\ UNCHANGED <<k, n, size, src>>
Next == Draw \/ Take \/ Stop
Spec == Init /\ [][Next]_vars

Bytes == src \o Zeros(size - Len(src))
Value == De(S, Bytes)

Valid ==
  ph = "done" /\ Value.ok =>
    /\ WellTyped(S, Value.v) /\ ValidLen(k, n, Len(Value.v))
    /\ Ser(S, Value.v) = Bytes /\ De(S, Ser(S, Value.v)) = Value
(* Zeros alone are a bitvector and never a bitlist.                         *)
Exhausted ==
  ph = "done" /\ src = <<>> => (Value.ok <=> k = "bitvec")
(* Every value of the type is that of a source: there are bytes for it, and *)
(* a size that may be drawn.                                               *)
Reachable ==
  ph = "start" /\ n <= MaxCap /\ n >= 1 =>
    \A m \in (IF k = "bitvec" THEN {n} ELSE 0..n) : \A v \in [1..m -> {0, 1}] :
      LET x == Ser(S, Force(v))
      IN /\ De(S, x) = Good(Force(v))
         /\ IF k = "bitvec" THEN Len(x) = MaxOf(1, Need) ELSE Len(x) <= n

Word(x) == <<x, 0, 0, 0, 0, 0, 0, 0>>
Emitted ==
  ph = "done" =>
    EmitCase(ToJson([op |-> "arb", k |-> k, n |-> n,
                     b |-> (IF k = "bitvec" THEN <<>> ELSE Word(size)) \o src, ok |-> Value.ok]))
=============================================================================
