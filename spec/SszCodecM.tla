----------------------------- MODULE SszCodecM -----------------------------
(***************************************************************************)
(* The reference codec against itself: a byte string grows by one byte at a *)
(* time, for each of a set of schemas.  De was written by recursion over    *)
(* byte strings and Ser over values; here the set of valid encodings is     *)
(* enumerated once more, as the image of Ser on all values small enough,    *)
(* and De has to accept that set, no more and no less, and be Ser's inverse *)
(* on it.                                                                  *)
(*                                                                         *)
(* Offsets are one byte wide here (overridden in the configuration): the    *)
(* definitions do not depend on the width, and every byte string up to the  *)
(* bound can be visited.                                                   *)
(***************************************************************************)
EXTENDS SszCodec, FiniteSets

CONSTANTS Alphabet, MaxLen, Big

VARIABLES i, b,
          pairs, image   \* of schema i (constant; kept here so as to be computed once)

OneByte == 1
OneByteWord(n) == <<n>>
OneByteAt(x, p) == x[p + 1]

U(n) == [k |-> "uint", n |-> n]
Bs == [k |-> "bytes"]
L(e) == [k |-> "list", e |-> e]
C(f) == [k |-> "cont", f |-> f]
O(e) == [k |-> "option", e |-> e]
Un(v) == [k |-> "union", v |-> v]
Bl(n) == [k |-> "bitlist", n |-> n]
Bv(n) == [k |-> "bitvec", n |-> n]
Bool == [k |-> "bool"]
SetT(e) == [k |-> "set", e |-> e]
MapT(e, w) == [k |-> "map", e |-> e, w |-> w]
Skip(e) == [k |-> "skip", e |-> e]
Trans(f) == [k |-> "trans", f |-> f]

Base == <<
  U(1), U(2), [k |-> "nzuint", n |-> 2], Bool, [k |-> "bytesN", n |-> 2], Bs, [k |-> "tag", n |-> 3],
  L(U(1)), L(U(2)), L(Bool), L(Bs), L(L(U(1))), L(L(Bs)),
  C(<<>>), C(<<U(1)>>), C(<<U(1), Bs>>), C(<<Bs, U(1)>>), C(<<Bs, Bs>>), C(<<Bs, U(2), L(Bs)>>),
  C(<<Bs, Bs, Bs>>), C(<<C(<<U(1), Bool>>), U(1)>>), C(<<C(<<U(1), Bs>>), Bs>>), C(<<Skip(Bs), U(1), Bs>>),
  C(<<U(1), Skip(U(2)), Bool>>),
  O(U(1)), O(Bs), O(O(Bool)), L(O(U(1))), C(<<O(U(1)), Bs>>),
  Un(<<U(1), Bs, Bool>>), Un(<<L(Bs), C(<<>>)>>), L(Un(<<Bool, U(2)>>)),
  Bl(0), Bl(2), Bl(7), Bl(8), Bl(9), Bv(0), Bv(2), Bv(8), Bv(9), [k |-> "bitdyn"], L(Bl(3)), L(Bv(3)),
  C(<<Bl(3), Bv(3), Bs>>),
  Trans(<<Skip(U(1)), Bs>>), Trans(<<C(<<U(1), Bs>>)>>), L(Trans(<<U(2)>>)),
  L(C(<<U(1), Bool>>)), L(C(<<U(1), Bs>>)),
  [k |-> "tenum", v |-> <<U(2), Bs>>], [k |-> "tenum", v |-> <<U(1), Bool, U(2)>>],
  SetT(U(1)), SetT(Bs), MapT(U(1), U(1)), MapT(U(1), Bs), MapT(Bs, Bs), MapT(U(1), SetT(U(1))),
  L(C(<<>>)), [k |-> "uintbe", n |-> 2], [k |-> "revbytes"], [k |-> "fixbytes", n |-> 2] >>

Schemas == Base \o (IF Big THEN Force([j \in 1..Len(Base) |-> C(<<Base[j], Bs>>)])
                                \o Force([j \in 1..Len(Base) |-> L(Base[j])]) ELSE <<>>)

(* ---------------------------------------------------------------------- *)
(* Every value of schema s whose encoding has at most n bytes, over the     *)
(* alphabet (and perhaps more).                                            *)
Strings(n) == UNION {[1..m -> Alphabet] : m \in 0..n}
Cost(s, v) == IF IsFixed(s) THEN FixedLen(s) ELSE BytesPerOffset + Len(Ser(s, v))
Room(s, n) == IF IsFixed(s) THEN n ELSE n - BytesPerOffset

RECURSIVE SmallVals(_, _), Seqs(_, _), Prods(_, _)
Seqs(e, n) ==
  {<<>>} \cup UNION {{<<x>> \o t : t \in Seqs(e, n - Cost(e, x))} :
                     x \in {x \in SmallVals(e, Room(e, n)) : Cost(e, x) \in 1..n}}
Prods(f, n) ==
  IF f = <<>> THEN {<<>>}
  ELSE IF Head(f).k = "skip" THEN {<<DefaultOf(Head(f).e)>> \o t : t \in Prods(Tail(f), n)}
  ELSE UNION {{<<x>> \o t : t \in Prods(Tail(f), n - Cost(Head(f), x))} :
              x \in {x \in SmallVals(Head(f), Room(Head(f), n)) : Cost(Head(f), x) <= n}}
SmallVals(s, n) ==
  IF n < 0 THEN {}
  ELSE CASE s.k \in {"uint", "bytesN", "uintbe", "fixbytes"} -> IF s.n <= n THEN [1..s.n -> Alphabet] ELSE {}
    [] s.k = "nzuint" -> IF s.n <= n THEN {x \in [1..s.n -> Alphabet] : \E j \in 1..s.n : x[j] # 0} ELSE {}
    [] s.k = "bool" -> IF n >= 1 THEN {0, 1} ELSE {}
    [] s.k = "tag" -> IF n >= 1 THEN 0..(s.n - 1) ELSE {}
    [] s.k \in {"bytes", "revbytes"} -> Strings(n)
    [] s.k = "list" -> Seqs(s.e, n)
    [] s.k \in {"set", "map"} -> {x \in Seqs(ItemSchema(s), n) : Sorted(s, x)}
    [] s.k = "cont" -> Prods(s.f, n)
    [] s.k = "trans" -> Prods(s.f, n + BytesPerOffset)
    [] s.k = "option" -> IF n < 1 THEN {} ELSE {<<>>} \cup {<<x>> : x \in SmallVals(s.e, n - 1)}
    [] s.k = "legacy" -> IF n < 4 THEN {} ELSE {<<>>} \cup {<<x>> : x \in SmallVals(s.e, n - 4)}
    [] s.k = "union" -> UNION {{<<j - 1, x>> : x \in SmallVals(s.v[j], n - 1)} : j \in 1..Len(s.v)}
    [] s.k = "tenum" -> UNION {{<<j - 1, x>> : x \in SmallVals(s.v[j], n)} : j \in 1..Len(s.v)}
    [] s.k = "bitvec" -> IF BytesForBits(s.n) > n THEN {}
                         ELSE {SubSeq(UnpackBits(y, 8 * Len(y)), 1, s.n) : y \in [1..BytesForBits(s.n) -> Alphabet]}
    [] s.k = "bitdyn" -> {UnpackBits(y, 8 * Len(y)) : y \in Strings(n) \ {<<>>}}
    [] s.k = "bitlist" ->
         (* of a byte string, every length whose delimiter bit is in the alphabet's reach *)
         UNION {{SubSeq(UnpackBits(y, 8 * Len(y)), 1, m) : m \in 0..MinOf(s.n, 8 * Len(y) - 1)} :
                y \in Strings(n) \ {<<>>}}

Fits(y) == Len(y) <= MaxLen /\ \A j \in 1..Len(y) : y[j] \in Alphabet

(* <<encoding, value>> of every small value.                               *)
PairsOf(s) ==
  {p \in {<<Ser(s, v), v>> : v \in {v \in SmallVals(s, MaxLen) : WellTyped(s, v)}} : Fits(p[1])}

Init == /\ i \in 1..Len(Schemas) /\ b = <<>>
        /\ pairs = PairsOf(Schemas[i]) /\ image = {p[1] : p \in pairs}
Next == /\ Len(b) < MaxLen
        /\ \E x \in Alphabet : b' = Append(b, x)
        /\ UNCHANGED <<i, pairs, image>>
Strip == <<i, b>>

S == Schemas[i]
D == De(S, b)

(* Exactly the image of Ser is accepted (maps and sets: more than it).      *)
Exactly ==
  IF HasZeroItems(S) THEN TRUE
  ELSE IF HasKind(S, {"map", "set"}) THEN b \in image => D.ok
  ELSE D.ok <=> b \in image

(* Decoding inverts encoding, and picks the value.                          *)
Inverts ==
  /\ D.ok => WellTyped(S, D.v)
  /\ D.ok /\ Canonical(S) /\ ~HasZeroItems(S) => Ser(S, D.v) = b
  /\ D.ok /\ RoundTrips(S) => De(S, Ser(S, D.v)) = D        \* a fixed point, maps and sets too
FirstAccepting ==
  S.k = "tenum" /\ D.ok =>
    \A j \in 1..Len(S.v) : j <= D.v[1] => ~De(S.v[j], b).ok

(* Once for every schema: what holds of all its small values.               *)
Values ==
  b = <<>> =>
    \A p \in pairs :
      /\ RoundTrips(S) => De(S, p[1]) = Good(Erase(S, p[2]))
      /\ IsFixed(S) => Len(p[1]) = FixedLen(S)
      /\ ~IsFixed(S) => FixedLen(S) = BytesPerOffset

(* No two values (but for skipped fields) share an encoding.                *)
Injective ==
  b = <<>> /\ Canonical(S) /\ ~HasZeroItems(S) =>
    Cardinality({<<p[1], Erase(S, p[2])>> : p \in pairs}) = Cardinality(image)

(* A fixed-size schema accepts its own length only.                         *)
FixedLengthOnly == D.ok /\ IsFixed(S) => Len(b) = FixedLen(S)

(* What is cut off or added is noticed, for schemas that see their end.     *)
NoTrailing ==
  D.ok /\ IsFixed(S) => \A x \in {0, 1} : ~De(S, Append(b, x)).ok
=============================================================================
