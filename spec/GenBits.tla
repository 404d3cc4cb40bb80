------------------------------ MODULE GenBits ------------------------------
(***************************************************************************)
(* What the specification says of single bitfield operations: for every     *)
(* type some values (all of them if the capacity is small), for every two   *)
(* the set operations, for every value the resizings and its encoding with  *)
(* one edit.  The answers are checked against laws they have to satisfy     *)
(* and replayed into the real types.                                       *)
(***************************************************************************)
EXTENDS SszBitfield, Emit, FiniteSets

CONSTANTS Lists, Vectors,      \* capacities
          Small,               \* capacities of which every value is taken
          Dyn,                 \* lengths of dynamic vectors
          Sizes                \* capacities to resize to

VARIABLES k, n, ph, a, b, m
vars == <<k, n, ph, a, b, m>>

Mode == IOEnv.SIDE             \* "pairs", "resizes" or "bytes"

AllBits(len) == [1..len -> {0, 1}]
Pattern(len, p) ==
  CASE p = 0 -> Zeros(len)
    [] p = 1 -> Force([i \in 1..len |-> 1])
    [] p = 2 -> Force([i \in 1..len |-> IF i = len THEN 1 ELSE 0])
    [] p = 3 -> Force([i \in 1..len |-> IF i = 1 THEN 1 ELSE 0])
    [] p = 4 -> Force([i \in 1..len |-> i % 2])
    [] p = 5 -> Force([i \in 1..len |-> IF ((i * 7) + (i \div 8) + len) % 5 < 2 THEN 1 ELSE 0])
    [] p = 6 -> Force([i \in 1..len |-> IF (i - 1) \div 8 = len \div 16 THEN 1 ELSE 0])
LensOf == CASE k = "bitlist" -> {len \in {0, 1, 7, 8, 9, 64, n \div 2, n - 1, n} : len >= 0 /\ len <= n}
            [] k = "bitvec" -> {n}
            [] k = "bitdyn" -> Dyn
ValuesOf ==
  IF k # "bitdyn" /\ n \in Small
  THEN UNION {AllBits(len) : len \in (IF k = "bitlist" THEN 0..n ELSE {n})}
  ELSE {Pattern(len, p) : len \in LensOf, p \in IF n > 200 THEN {1, 2, 5, 6} ELSE 0..6}
AsTuple(x) == Force([i \in 1..Len(x) |-> x[i]])

Init == /\ \/ k = "bitlist" /\ n \in Lists
           \/ k = "bitvec" /\ n \in Vectors
           \/ k = "bitdyn" /\ n = 0
        /\ ph = "type" /\ a = <<>> /\ b = <<>> /\ m = 0
Value == ph = "type" /\ a' \in {AsTuple(x) : x \in ValuesOf} /\ ph' = "value" /\ UNCHANGED <<k, n, b, m>>
Pair == Mode = "pairs" /\ ph = "value" /\ b' \in {AsTuple(x) : x \in ValuesOf}
        /\ ph' = "pair" /\ UNCHANGED <<k, n, a, m>>
Resize == Mode = "resizes" /\ k = "bitlist" /\ ph = "value" /\ m' \in Sizes
          /\ ph' = "resize" /\ UNCHANGED <<k, n, a, b>>
Edits(x) ==
  {x} \cup {[x EXCEPT ![p] = (x[p] + d) % 256] : p \in {1, Len(x), (Len(x) + 1) \div 2}, d \in {1, 2, 64, 128, 255}}
    \cup {x \o y : y \in {<<0>>, <<1>>, <<128>>}} \cup {SubSeq(x, 1, Len(x) - 1), Tail(x)}
Bytes == Mode = "bytes" /\ ph = "value" /\ b' \in Edits(Ser(BitSchema(k, n), a))
         /\ ph' = "bytes" /\ a' = <<>> /\ UNCHANGED <<k, n, m>>
Next == Value \/ Pair \/ Resize \/ Bytes

(* ---------------------------------------------------------------------- *)
TypeOK == ph \notin {"type", "bytes"} => ValidLen(k, n, Len(a))
PairOK ==
  ph = "pair" =>
    LET u == UnionOf(k, a, b)  i == InterOf(k, a, b)  d == DiffOf(k, a, b)
    IN /\ ValidLen(k, n, Len(u)) /\ ValidLen(k, n, Len(i)) /\ ValidLen(k, n, Len(d))
       /\ Ones(u) = Ones(a) \cup Ones(b)
       /\ Ones(i) = Ones(a) \cap Ones(b)
       /\ Ones(d) = Ones(a) \ Ones(b)
       /\ SubsetOf(a, b) = (Ones(a) \subseteq Ones(b))
       /\ u = UnionOf(k, b, a) /\ i = InterOf(k, b, a)
       /\ Ones(UnionOf(k, i, d)) = Ones(a)
       /\ (d = Zeros(Len(a))) = SubsetOf(a, b)
ResizeLaw ==
  ph = "resize" /\ m >= n => ResizeOK(a, m, a) /\ ValidLen(k, m, Len(a))
BytesOK ==
  ph = "bytes" =>
    LET s == BitSchema(k, n)  r == De(s, b)
    IN r.ok => /\ ValidLen(k, n, Len(r.v)) /\ Ser(s, r.v) = b
               /\ k = "bitvec" => Len(b) = BytesForBits(n)

Emitted ==
  Emitting =>
    CASE ph = "pair" ->
           EmitCase(ToJson([op |-> "pair2", k |-> k, n |-> n, a |-> a, b |-> b, u |-> UnionOf(k, a, b),
                            i |-> InterOf(k, a, b), d |-> DiffOf(k, a, b), sub |-> SubsetOf(a, b)]))
      [] ph = "resize" ->
           EmitCase(ToJson([op |-> "resize2", k |-> k, n |-> n, a |-> a, m |-> m, ok |-> m >= n]))
      [] ph = "bytes" ->
           LET r == De(BitSchema(k, n), b)
           IN EmitCase(ToJson([op |-> "api2", k |-> k, n |-> n, b |-> b, ok |-> r.ok,
                               v |-> IF r.ok THEN r.v ELSE <<>>]))
      [] OTHER -> TRUE
=============================================================================
