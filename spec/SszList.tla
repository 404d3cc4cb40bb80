------------------------------ MODULE SszList ------------------------------
(***************************************************************************)
(* What decoding a list of variable-size items means, with a limit on the   *)
(* number of items and a collection that may refuse them (C16), as a pure   *)
(* function of the input.                                                  *)
(***************************************************************************)
EXTENDS SszCodec

(* In the harness an item starting with 238 does not decode.                *)
BadItem(x) == Len(x) > 0 /\ x[1] = 238

(* The collections of the harness, and when they refuse.                    *)
Refuses(coll, items) ==
  CASE coll = "bounded0" -> Len(items) > 0
    [] coll = "bounded1" -> Len(items) > 1
    [] coll = "bounded3" -> Len(items) > 3
    [] coll = "late2" -> Len(items) > 2
    [] coll = "picky" -> \E i \in 1..Len(items) : Len(items[i]) > 0 /\ items[i][1] = 221
    [] OTHER -> FALSE

CollectInto(coll, items) ==
  IF coll = "set" THEN Collect([k |-> "set", e |-> [k |-> "bytes"]], items) ELSE items

Unlimited(coll, b) ==
  LET t == TileList(b)
  IN IF ~t.ok THEN Fail
     ELSE IF \E i \in 1..Len(t.v) : BadItem(t.v[i]) THEN Fail
     ELSE IF Refuses(coll, t.v) THEN Fail
     ELSE Good(CollectInto(coll, t.v))

(* The number of items the input announces.                                *)
Announced(b) == IF Len(b) < BytesPerOffset THEN 0 ELSE OffsetAt(b, 0) \div BytesPerOffset

OverLimit(m, b) == m >= 0 /\ Announced(b) > m

Limited(coll, m, b) == IF OverLimit(m, b) THEN Fail ELSE Unlimited(coll, b)
=============================================================================
