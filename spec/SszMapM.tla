------------------------------ MODULE SszMapM ------------------------------
(***************************************************************************)
(* Decoding an ordered map or set as a machine: the entries are taken from  *)
(* the list one after the other and inserted in key order, a key that is    *)
(* there already getting the new value.  The machine is compared with the   *)
(* declarative definition (Collect: the last entry of every key, in         *)
(* ascending order), and the entry lists are replayed into the real types   *)
(* of the same schema.                                                     *)
(***************************************************************************)
EXTENDS SszCodec, Emit, FiniteSets

CONSTANTS MaxEntries,   \* entries inserted one by one
          Prefix        \* numbers of entries that are there beforehand

VARIABLES s,            \* which of the schemas
          list,         \* the entries so far, in the order listed
          acc           \* the collection so far
vars == <<s, list, acc>>

U(n) == [k |-> "uint", n |-> n]
Bs == [k |-> "bytes"]
Map(k, w) == [k |-> "map", e |-> k, w |-> w]
Set(k) == [k |-> "set", e |-> k]
Maps == <<Map(U(1), U(1)), Map(U(2), Bs), Map(Bs, U(1)), Map(U(8), U(2)), Set(U(2)), Set(Bs), Set(U(1))>>

(* Keys whose order as numbers is not the order of their encodings, keys    *)
(* of which one is a prefix of the other.                                  *)
Keys(k) ==
  CASE k = U(1) -> <<<<0>>, <<1>>, <<128>>, <<255>>>>
    [] k = U(2) -> <<<<0, 0>>, <<1, 0>>, <<0, 255>>, <<2, 1>>>>
    [] k = U(8) -> <<Zeros(8), <<0, 0, 0, 0, 0, 0, 1, 0>>, <<0, 0, 0, 0, 0, 0, 0, 9>>, <<1, 0, 0, 0, 0, 0, 0, 0>>>>
    [] k = Bs -> <<<<>>, <<1>>, <<1, 0>>, <<0, 9>>>>
Values(w) ==
  CASE w = U(1) -> <<<<7>>, <<0>>>>
    [] w = U(2) -> <<<<0, 1>>, <<1, 0>>>>
    [] w = Bs -> <<<<>>, <<5, 6, 7>>>>
Entries(m) ==
  IF m.k = "set" THEN {Keys(m.e)[i] : i \in 1..4}
  ELSE {<<Keys(m.e)[i], Values(m.w)[j]>> : i \in 1..4, j \in 1..2}

(* n different entries listed in descending order. *)
KeyNo(k, i) ==
  CASE k = U(1) -> <<i>>
    [] k = U(2) -> <<i \div 16, i % 256>>
    [] k = U(8) -> <<0, 0, 0, 0, 0, 0, i \div 100, i>>
    [] k = Bs -> Force([j \in 1..(1 + (i \div 200)) |-> i])
Before(m, n) ==
  Force([i \in 1..n |-> LET k == KeyNo(m.e, 2 * (n - i) + 1)
                        IN IF m.k = "set" THEN k ELSE <<k, Values(m.w)[(i % 2) + 1]>>])

C(m, x, y) == Cmp(m.e, KeyOf(m, x), KeyOf(m, y))

(* One insertion: the first place whose key is not smaller. *)
Insert(m, a, x) ==
  LET smaller == {i \in 1..Len(a) : C(m, a[i], x) < 0}
      p == Cardinality(smaller)
  IN IF p < Len(a) /\ C(m, a[p + 1], x) = 0 THEN [a EXCEPT ![p + 1] = x]
     ELSE SubSeq(a, 1, p) \o <<x>> \o SubSeq(a, p + 1, Len(a))

Init ==
  \E n \in Prefix :
    /\ s \in 1..Len(Maps)
    /\ list = Before(Maps[s], n)
    /\ acc = FoldLeft(LAMBDA a, x : Insert(Maps[s], a, x), <<>>, list)
Shortest == CHOOSE n \in Prefix : \A m \in Prefix : n <= m
Take ==
  \* after many entries one is enough
  /\ Len(list) < Shortest + MaxEntries \/ (Len(list) \in Prefix /\ Len(list) > Shortest + MaxEntries)
  /\ \E x \in Entries(Maps[s]) : list' = Append(list, x) /\ acc' = Insert(Maps[s], acc, x)
  /\ UNCHANGED s
Next == Take

(* ---------------------------------------------------------------------- *)
M == Maps[s]
Wire == Ser([k |-> "list", e |-> ItemSchema(M)], list)
AscendingOK == Sorted(M, acc)
CollectOK == acc = Collect(M, list)
DecodeOK == De(M, Wire) = Good(acc)
(* What is encoded again is the collection, and decodes to itself.          *)
FixpointOK ==
  LET b == Ser(M, acc)
  IN /\ De(M, b) = Good(acc)
     /\ Len(b) <= Len(Wire)
     /\ (b = Wire) = (list = acc)
(* An entry already there changes nothing; the last value of a key stays.   *)
LastWins ==
  list # <<>> =>
    LET x == list[Len(list)]
    IN \E i \in 1..Len(acc) : acc[i] = x
(* The order of entries of different keys does not matter.                  *)
SwapOK ==
  Len(list) >= 2 =>
    LET n == Len(list)
    IN C(M, list[n], list[n - 1]) # 0 =>
         Collect(M, [list EXCEPT ![n] = list[n - 1], ![n - 1] = list[n]]) = acc

Ids == JsonDeserialize(IOEnv.IDS)
Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Emitted ==
  Emitting =>
    \A i \in 1..Len(Ids) :
      Schemas[Ids[i]].d = M =>
        EmitCase(ToJson([op |-> "dec", ty |-> Ids[i], b |-> Wire, ok |-> TRUE, v |-> acc]))
=============================================================================
