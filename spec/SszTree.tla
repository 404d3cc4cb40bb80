------------------------------ MODULE SszTree ------------------------------
(***************************************************************************)
(* What a client gives to container encoders: a tree.  A container is a     *)
(* sequence of parts, each a leaf <<fixed, bytes>> (fixed = 1 or 0) or a    *)
(* container of its own <<2, parts>>.                                      *)
(***************************************************************************)
EXTENDS SszCodec

IsLeafPart(p) == p[1] # 2
RECURSIVE PartFixed(_)
PartFixed(p) == IF IsLeafPart(p) THEN p[1] = 1 ELSE \A i \in 1..Len(p[2]) : PartFixed(p[2][i])

(* The encoding of a container.                                            *)
RECURSIVE SerTree(_)
SerPart(p) == IF IsLeafPart(p) THEN p[2] ELSE SerTree(p[2])
SerTree(t) ==
  Assemble(Force([i \in 1..Len(t) |-> PartFixed(t[i])]), Force([i \in 1..Len(t) |-> SerPart(t[i])]))

(* The number of bytes of the fixed portion, which the client has to state  *)
(* before the first part.                                                  *)
FixedPortion(t) ==
  SumSeq([i \in 1..Len(t) |-> IF PartFixed(t[i]) THEN Len(SerPart(t[i])) ELSE BytesPerOffset])
=============================================================================
