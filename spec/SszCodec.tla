------------------------------ MODULE SszCodec ------------------------------
(***************************************************************************)
(* The reference codec: what the SSZ specification (plus the library's      *)
(* documented mapping of library-specific types) says the encoding of a     *)
(* value is, and which byte strings are valid encodings of which value.     *)
(* It is written declaratively (quantifiers over positions), not as the     *)
(* code is written.                                                        *)
(*                                                                         *)
(* Values:  uint/nzuint/uintbe: digits, most significant first;  bool: 0/1; *)
(*   bytesN/bytes: the bytes;  list/set: sequence of items;  cont: sequence *)
(*   of fields;  map: sequence of <<key, value>>;  option/legacy: <<>> or   *)
(*   <<x>>;  union/tenum: <<i, x>> with i 0-based;  tag: i;                 *)
(*   bitvec/bitlist/bitdyn: sequence of 0/1.                               *)
(***************************************************************************)
EXTENDS SszSchema

(* ---------------------------------------------------------------------- *)
(* Serialization.                                                          *)

(* Concatenation of n byte strings of length L each.                       *)
ConcatEqual(L, parts) ==
  IF L = 0 THEN <<>>
  ELSE Force([j \in 1..(L * Len(parts)) |-> parts[((j - 1) \div L) + 1][((j - 1) % L) + 1]])

(* Fixed parts (or offset words) followed by the variable parts, in order.  *)
(* The offset of a variable part is the length of the whole fixed portion   *)
(* plus the lengths of the variable parts before it.                       *)
Assemble(fixed, parts) ==
  LET n == Len(fixed)
      fixedEnd == SumSeq([i \in 1..n |-> IF fixed[i] THEN Len(parts[i])
                                         ELSE BytesPerOffset])
      tails == Force([i \in 1..n |-> IF fixed[i] THEN <<>> ELSE parts[i]])
      (* starts[i] = where the variable part i begins *)
      starts == FoldLeft(LAMBDA acc, t : Append(acc, acc[Len(acc)] + Len(t)),
                         <<fixedEnd>>, tails)
      heads == Force([i \in 1..n |-> IF fixed[i] THEN parts[i] ELSE OffsetWord(starts[i])])
  IN FlattenSeq(heads) \o FlattenSeq(tails)

RECURSIVE Ser(_, _)
Ser(s, v) ==
  CASE s.k \in {"uint", "nzuint"} -> DigitsToLE(v)
    [] s.k \in {"uintbe", "fixbytes"} -> v
    [] s.k = "uint24" -> Rev(Tail(v))
    [] s.k = "varu8" -> v
    [] s.k = "revbytes" -> Rev(v)
    [] s.k = "trans" -> Ser(Wrapped(s), v[LivePos(s)])
    [] s.k = "bool" -> <<v>>
    [] s.k \in {"bytesN", "bytes"} -> v
    [] s.k = "tag" -> <<v>>
    [] s.k \in {"list", "set", "map"} ->
         LET e == ItemSchema(s)
             parts == Force([i \in 1..Len(v) |-> Ser(e, v[i])])
         IN IF IsFixed(e) THEN ConcatEqual(FixedLen(e), parts)
            ELSE Assemble(Force([i \in 1..Len(v) |-> FALSE]), parts)
    [] s.k = "cont" ->
         LET live == LiveIdx(s.f)
         IN Assemble(Force([i \in 1..Len(live) |-> IsFixed(s.f[live[i]])]),
                     Force([i \in 1..Len(live) |-> Ser(s.f[live[i]], v[live[i]])]))
    [] s.k = "option" -> IF Len(v) = 0 THEN <<0>> ELSE <<1>> \o Ser(s.e, v[1])
    [] s.k = "legacy" -> IF Len(v) = 0 THEN <<0, 0, 0, 0>>
                         ELSE <<1, 0, 0, 0>> \o Ser(s.e, v[1])
    [] s.k = "union" -> <<v[1]>> \o Ser(s.v[v[1] + 1], v[2])
    [] s.k = "tenum" -> Ser(s.v[v[1] + 1], v[2])
    [] s.k \in {"bitvec", "bitdyn"} -> PackBits(v)
    [] s.k = "bitlist" -> PackBits(v \o <<1>>)

(* ---------------------------------------------------------------------- *)
(* Order of values (Rust's derived/standard Ord), for maps and sets.       *)

CmpInt(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

(* Lexicographic comparison given a comparison of the i-th elements.        *)
LexCmp(C(_, _, _), a, b) ==
  LET m == MinOf(Len(a), Len(b))
      d == {i \in 1..m : C(i, a[i], b[i]) # 0}
  IN IF d = {} THEN CmpInt(Len(a), Len(b))
     ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j
          IN C(i, a[i], b[i])

(* A transparent struct may have the reverse of the derived order.          *)
Descending(s) == "r" \in DOMAIN s

RECURSIVE Cmp(_, _, _)
Cmp(s, a, b) ==
  CASE s.k \in {"uint", "nzuint", "uintbe", "bytesN", "bytes", "uint24", "fixbytes",
              "varu8", "revbytes"} ->
         LexCmp(LAMBDA i, x, y : CmpInt(x, y), a, b)
    [] s.k \in {"bool", "tag"} -> CmpInt(a, b)
    [] s.k \in {"list", "set", "map"} ->
         LexCmp(LAMBDA i, x, y : Cmp(ItemSchema(s), x, y), a, b)
    [] s.k \in {"cont", "trans"} ->
         LET c == LexCmp(LAMBDA i, x, y : Cmp(s.f[i], x, y), a, b)
         IN IF Descending(s) THEN -c ELSE c
    [] s.k = "skip" -> Cmp(s.e, a, b)
    [] s.k \in {"option", "legacy"} ->
         LexCmp(LAMBDA i, x, y : Cmp(s.e, x, y), a, b)
    [] s.k \in {"union", "tenum"} ->
         IF a[1] # b[1] THEN CmpInt(a[1], b[1]) ELSE Cmp(s.v[a[1] + 1], a[2], b[2])

(* The collection of a sequence of entries: ascending by key, the entry of  *)
(* a duplicate key being the last one listed.                               *)
KeyOf(s, x) == IF s.k = "map" THEN x[1] ELSE x
Collect(s, entries) ==
  LET n == Len(entries)
      C(i, j) == Cmp(s.e, KeyOf(s, entries[i]), KeyOf(s, entries[j]))
      kept == {i \in 1..n : \A j \in (i + 1)..n : C(i, j) # 0}
      rank(i) == 1 + SumSeq([j \in 1..n |-> IF j \in kept /\ C(j, i) < 0 THEN 1 ELSE 0])
      ranks == Force([i \in kept |-> rank(i)])
      m == SumSeq([i \in 1..n |-> IF i \in kept THEN 1 ELSE 0])
  IN Force([r \in 1..m |-> entries[CHOOSE i \in kept : ranks[i] = r]])

Sorted(s, entries) ==
  \A i \in 1..(Len(entries) - 1) :
     Cmp(s.e, KeyOf(s, entries[i]), KeyOf(s, entries[i + 1])) < 0

(* ---------------------------------------------------------------------- *)
(* The Default value of the (Rust) type with schema s.                      *)
RECURSIVE DefaultOf(_)
DefaultOf(s) ==
  CASE s.k \in {"uint", "uintbe", "bytesN"} -> Zeros(s.n)
    [] s.k \in {"bool", "tag"} -> 0
    [] s.k \in {"bytes", "revbytes", "list", "map", "set", "option", "legacy"} -> <<>>
    [] s.k = "skip" -> DefaultOf(s.e)
    [] s.k \in {"cont", "trans"} -> Force([i \in 1..Len(s.f) |-> DefaultOf(s.f[i])])
    [] s.k = "bitvec" -> Zeros(s.n)

(* v with every skipped field replaced by its default: what a round trip    *)
(* through the bytes can preserve.                                         *)
RECURSIVE Erase(_, _)
Erase(s, v) ==
  CASE s.k \in {"cont", "trans"} ->
                       Force([i \in 1..Len(s.f) |->
                          IF IsLive(s.f[i]) THEN Erase(s.f[i], v[i])
                          ELSE DefaultOf(s.f[i].e)])
    [] IsListLike(s) -> Force([i \in 1..Len(v) |-> Erase(ItemSchema(s), v[i])])
    [] s.k \in {"option", "legacy"} -> Force([i \in 1..Len(v) |-> Erase(s.e, v[i])])
    [] s.k \in {"union", "tenum"} -> <<v[1], Erase(s.v[v[1] + 1], v[2])>>
    [] OTHER -> v

(* ---------------------------------------------------------------------- *)
(* Deserialization.  A result is [ok |-> FALSE] or [ok |-> TRUE, v |-> v].  *)

Fail == [ok |-> FALSE]
Good(v) == [ok |-> TRUE, v |-> v]

(* The tiling condition: `kinds' says for each item its length if it is     *)
(* fixed-size and -1 if it is variable-size.  Tile(kinds, b) is the         *)
(* sequence of byte strings of the items, or Fail.                          *)
Tile(kinds, b) ==
  LET n == Len(kinds)
      W(i) == IF kinds[i] < 0 THEN BytesPerOffset ELSE kinds[i]
      pos == FoldLeft(LAMBDA acc, i : Append(acc, acc[Len(acc)] + W(i)),
                      <<0>>, Force([i \in 1..n |-> i])) \* pos[i] = start of item i
      end == pos[n + 1]
      vars == SelectSeq([i \in 1..n |-> i], LAMBDA i : kinds[i] < 0)
      nv == Len(vars)
      off == Force([j \in 1..nv |-> OffsetAt(b, pos[vars[j]])])
      rank == Force([i \in 1..n |-> SumSeq([j \in 1..nv |-> IF vars[j] <= i THEN 1 ELSE 0])])
  IN IF nv = 0
     THEN IF Len(b) # end THEN Fail
          ELSE Good(Force([i \in 1..n |-> Slice(b, pos[i], pos[i + 1])]))
     ELSE IF Len(b) < end THEN Fail
     ELSE IF /\ off[1] = end
             /\ \A j \in 1..(nv - 1) : off[j] <= off[j + 1]
             /\ off[nv] <= Len(b)
          THEN Good(Force([i \in 1..n |->
                      IF kinds[i] >= 0 THEN Slice(b, pos[i], pos[i + 1])
                      ELSE Slice(b, off[rank[i]],
                                 IF rank[i] = nv THEN Len(b) ELSE off[rank[i] + 1])]))
          ELSE Fail

(* The offset table of a list of variable-size items, as item byte strings. *)
TileList(b) ==
  IF Len(b) = 0 THEN Good(<<>>)
  ELSE IF Len(b) < BytesPerOffset THEN Fail
  ELSE LET o1 == OffsetAt(b, 0)
       IN IF o1 < BytesPerOffset \/ o1 > Len(b) \/ o1 % BytesPerOffset # 0 THEN Fail
          ELSE LET n == o1 \div BytesPerOffset
                   off == Force([j \in 1..(n + 1) |-> IF j = n + 1 THEN Len(b)
                                    ELSE OffsetAt(b, (j - 1) * BytesPerOffset)])
               IN IF \A j \in 1..n : off[j] <= off[j + 1]
                  THEN Good(Force([j \in 1..n |-> Slice(b, off[j], off[j + 1])]))
                  ELSE Fail

(* A list of items of fixed length L > 0.                                  *)
TileFixed(L, b) ==
  IF L = 0 THEN (IF Len(b) = 0 THEN Good(<<>>) ELSE Fail)
  ELSE IF Len(b) % L # 0 THEN Fail
  ELSE Good(Force([j \in 1..(Len(b) \div L) |-> Slice(b, (j - 1) * L, j * L)]))

AllOk(rs) == \A i \in 1..Len(rs) : rs[i].ok
Vals(rs) == Force([i \in 1..Len(rs) |-> rs[i].v])

RECURSIVE De(_, _)
De(s, b) ==
  CASE s.k = "uint" -> IF Len(b) = s.n THEN Good(LEToDigits(b)) ELSE Fail
    [] s.k = "nzuint" -> IF Len(b) = s.n /\ \E i \in 1..s.n : b[i] # 0
                         THEN Good(LEToDigits(b)) ELSE Fail
    [] s.k \in {"uintbe", "fixbytes"} -> IF Len(b) = s.n THEN Good(b) ELSE Fail
    [] s.k = "uint24" -> IF Len(b) = 3 THEN Good(<<0>> \o Rev(b)) ELSE Fail
    [] s.k = "varu8" -> IF Len(b) = 1 THEN Good(b) ELSE Fail
    [] s.k = "revbytes" -> Good(Rev(b))
    [] s.k = "trans" ->
         LET r == De(Wrapped(s), b)
         IN IF ~r.ok THEN Fail
            ELSE Good(Force([i \in 1..Len(s.f) |-> IF i = LivePos(s) THEN r.v
                                                   ELSE DefaultOf(s.f[i].e)]))
    [] s.k = "bool" -> IF Len(b) = 1 /\ b[1] \in {0, 1} THEN Good(b[1]) ELSE Fail
    [] s.k = "bytesN" -> IF Len(b) = s.n THEN Good(b) ELSE Fail
    [] s.k = "bytes" -> Good(b)
    [] s.k = "tag" -> IF Len(b) = 1 /\ b[1] < s.n THEN Good(b[1]) ELSE Fail
    [] s.k \in {"list", "set", "map"} ->
         LET e == ItemSchema(s)
             t == IF IsFixed(e) THEN TileFixed(FixedLen(e), b) ELSE TileList(b)
         IN IF ~t.ok THEN Fail
            ELSE LET rs == Force([i \in 1..Len(t.v) |-> De(e, t.v[i])])
                 IN IF ~AllOk(rs) THEN Fail
                    ELSE IF s.k = "list" THEN Good(Vals(rs))
                    ELSE Good(Collect(s, Vals(rs)))
    [] s.k = "cont" ->
         LET live == LiveIdx(s.f)
             n == Len(live)
             t == Tile(Force([i \in 1..n |-> IF IsFixed(s.f[live[i]])
                                             THEN FixedLen(s.f[live[i]]) ELSE -1]), b)
         IN IF ~t.ok THEN Fail
            ELSE LET rs == Force([i \in 1..n |-> De(s.f[live[i]], t.v[i])])
                     pos(i) == CHOOSE p \in 1..n : live[p] = i
                 IN IF ~AllOk(rs) THEN Fail
                    ELSE Good(Force([i \in 1..Len(s.f) |->
                                 IF IsLive(s.f[i]) THEN rs[pos(i)].v
                                 ELSE DefaultOf(s.f[i].e)]))
    [] s.k = "option" ->
         IF Len(b) = 0 THEN Fail
         ELSE IF b[1] = 0 THEN (IF Len(b) = 1 THEN Good(<<>>) ELSE Fail)
         ELSE IF b[1] = 1 THEN LET r == De(s.e, Tail(b))
                               IN IF r.ok THEN Good(<<r.v>>) ELSE Fail
         ELSE Fail
    [] s.k = "legacy" ->
         IF Len(b) < 4 THEN Fail
         ELSE IF b[2] # 0 \/ b[3] # 0 \/ b[4] # 0 THEN Fail
         ELSE IF b[1] = 0 THEN (IF Len(b) = 4 THEN Good(<<>>) ELSE Fail)
         ELSE IF b[1] = 1 THEN LET r == De(s.e, Drop(b, 4))
                               IN IF r.ok THEN Good(<<r.v>>) ELSE Fail
         ELSE Fail
    [] s.k = "union" ->
         IF Len(b) = 0 THEN Fail
         ELSE IF b[1] >= Len(s.v) \/ b[1] > 127 THEN Fail
         ELSE LET r == De(s.v[b[1] + 1], Tail(b))
              IN IF r.ok THEN Good(<<b[1], r.v>>) ELSE Fail
    [] s.k = "tenum" ->
         LET rs == Force([i \in 1..Len(s.v) |-> De(s.v[i], b)])
             acc == {i \in 1..Len(s.v) : rs[i].ok}
         IN IF acc = {} THEN Fail
            ELSE LET i == CHOOSE i \in acc : \A j \in acc : i <= j
                 IN Good(<<i - 1, rs[i].v>>)
    [] s.k = "bitvec" ->
         IF Len(b) # BytesForBits(s.n) THEN Fail
         ELSE LET bits == UnpackBits(b, 8 * Len(b))
              IN IF \E i \in (s.n + 1)..Len(bits) : bits[i] = 1 THEN Fail
                 ELSE Good(SubSeq(bits, 1, s.n))
    [] s.k = "bitlist" ->
         IF Len(b) = 0 THEN Fail
         ELSE IF b[Len(b)] = 0 THEN Fail
         ELSE LET len == (Len(b) - 1) * 8 + HighBit(b[Len(b)])
              IN IF len > s.n THEN Fail ELSE Good(UnpackBits(b, len))
    [] s.k = "bitdyn" ->
         IF Len(b) = 0 THEN Fail ELSE Good(UnpackBits(b, 8 * Len(b)))

(* ---------------------------------------------------------------------- *)
(* Which abstract values belong to a schema.                               *)
RECURSIVE WellTyped(_, _)
WellTyped(s, v) ==
  CASE s.k \in {"uint", "uintbe", "bytesN"} -> Len(v) = s.n /\ IsByteString(v)
    [] s.k = "nzuint" -> Len(v) = s.n /\ IsByteString(v) /\ \E i \in 1..s.n : v[i] # 0
    [] s.k \in {"bytes", "revbytes"} -> IsByteString(v)
    [] s.k = "fixbytes" -> IsByteString(v) /\ Len(v) = s.n
    [] s.k = "uint24" -> IsByteString(v) /\ Len(v) = 4 /\ v[1] = 0
    [] s.k = "varu8" -> IsByteString(v) /\ Len(v) = 1
    [] s.k = "bool" -> v \in {0, 1}
    [] s.k = "tag" -> v \in 0..(s.n - 1)
    [] s.k = "list" -> \A i \in 1..Len(v) : WellTyped(s.e, v[i])
    [] s.k \in {"set", "map"} -> /\ \A i \in 1..Len(v) : WellTyped(ItemSchema(s), v[i])
                                 /\ Sorted(s, v)
    [] s.k \in {"cont", "trans"} ->
                       /\ Len(v) = Len(s.f)
                       /\ \A i \in 1..Len(v) : WellTyped(s.f[i], v[i])
    [] s.k = "skip" -> WellTyped(s.e, v)
    [] s.k \in {"option", "legacy"} -> Len(v) = 0 \/ (Len(v) = 1 /\ WellTyped(s.e, v[1]))
    [] s.k \in {"union", "tenum"} -> /\ v[1] \in 0..(Len(s.v) - 1)
                                     /\ WellTyped(s.v[v[1] + 1], v[2])
    [] s.k = "bitvec" -> Len(v) = s.n /\ \A i \in 1..Len(v) : v[i] \in {0, 1}
    [] s.k = "bitlist" -> Len(v) <= s.n /\ \A i \in 1..Len(v) : v[i] \in {0, 1}
    [] s.k = "bitdyn" -> /\ Len(v) > 0 /\ Len(v) % 8 = 0
                         /\ \A i \in 1..Len(v) : v[i] \in {0, 1}
=============================================================================
