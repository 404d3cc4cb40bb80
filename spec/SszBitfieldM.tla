---------------------------- MODULE SszBitfieldM ----------------------------
(***************************************************************************)
(* A bitfield as bytes in memory: the representation [by, len], and every   *)
(* operation as work on bytes.  The machine applies each operation to the   *)
(* representations and, beside them, to plain boolean sequences             *)
(* (SszBitfield).  The invariants say that the representation refines the   *)
(* sequence, stays minimal, and has nothing beyond its length, and that     *)
(* what can be read off the bytes is what the sequence says.                *)
(***************************************************************************)
EXTENDS SszBitfield, Emit, Bitwise

CONSTANTS Lists, Vectors,    \* capacities
          MaxOps       \* length of histories

VARIABLES k, n,        \* the type
          rep,         \* per handle <<>> or <<[by, len]>>
          abs,         \* per handle <<>> or <<bits>>
          hist         \* the operations so far
vars == <<k, n, rep, abs, hist>>

Handles == 1..2

(* ---------------------------------------------------------------------- *)
(* Representations.                                                        *)
R(by, len) == [by |-> by, len |-> len]
ByteFor(i) == (i \div 8) + 1
BitAt(r, i) == IF (r.by[ByteFor(i)] & Pow2(i % 8)) # 0 THEN 1 ELSE 0
Put(r, i, x) ==
  [r EXCEPT !.by[ByteFor(i)] =
     IF x = 1 THEN @ | Pow2(i % 8) ELSE @ & (255 - Pow2(i % 8))]

(* From bytes that are taken as they are: minimal, nothing beyond len.      *)
FromRaw(by, len) ==
  IF Len(by) # BytesForBits(len) THEN Fail
  ELSE LET used == len - 8 * (Len(by) - 1)         \* bits of the last byte in use
       IN IF (by[Len(by)] & (255 - (Pow2(used) - 1))) # 0 THEN Fail ELSE Good(R(by, len))

HighestOf(by) ==
  LET s == {j \in 1..Len(by) : by[j] # 0}
  IN IF s = {} THEN -1
     ELSE LET j == CHOOSE j \in s : \A i \in s : i <= j IN (j - 1) * 8 + HighBit(by[j])

Resize(by, m) == IF Len(by) >= m THEN SubSeq(by, 1, m) ELSE by \o Zeros(m - Len(by))

IntoBytes(r) ==
  IF k = "bitlist"
  THEN Put(R(Resize(r.by, BytesForBits(r.len + 1)), r.len + 1), r.len, 1).by
  ELSE r.by

FromBytes(by) ==
  CASE k = "bitlist" ->
         LET h == HighestOf(by)
         IN IF by = <<>> \/ h < 0 THEN Fail
            ELSE IF ByteFor(h) # Len(by) THEN Fail
            ELSE IF h > n THEN Fail
            ELSE FromRaw(SubSeq(Put(R(by, 8 * Len(by)), h, 0).by, 1, BytesForBits(h)), h)
    [] k = "bitvec" -> FromRaw(by, n)
    [] k = "bitdyn" -> IF by = <<>> THEN Fail ELSE FromRaw(by, 8 * Len(by))

NewRep(len) == R(Zeros(BytesForBits(len)), len)

ShiftRep(r, m) ==
  LET moved == FoldLeft(LAMBDA acc, j :
                   LET i == r.len - j IN Put(acc, i, BitAt(acc, i - m)),     \* from the top down
                 r, [j \in 1..(r.len - m) |-> j])
  IN FoldLeft(LAMBDA acc, j : Put(acc, j - 1, 0), moved, [j \in 1..m |-> j])

ByteAt(r, j) == IF j <= Len(r.by) THEN r.by[j] ELSE 0
InterRep(r, s) ==
  LET z == NewRep(IF k = "bitlist" THEN MinOf(r.len, s.len) ELSE MaxOf(r.len, s.len))
  IN [z EXCEPT !.by = Force([j \in 1..Len(z.by) |-> ByteAt(r, j) & ByteAt(s, j)])]
UnionRep(r, s) ==
  LET z == NewRep(MaxOf(r.len, s.len))
  IN [z EXCEPT !.by = Force([j \in 1..Len(z.by) |-> ByteAt(r, j) | ByteAt(s, j)])]
DiffRep(r, s) ==
  [r EXCEPT !.by = Force([j \in 1..Len(r.by) |-> r.by[j] & (255 - ByteAt(s, j))])]

Ones8(b) == BitOf(b, 0) + BitOf(b, 1) + BitOf(b, 2) + BitOf(b, 3) + BitOf(b, 4) + BitOf(b, 5)
              + BitOf(b, 6) + BitOf(b, 7)

(* ---------------------------------------------------------------------- *)
Init ==
  /\ \/ k = "bitlist" /\ n \in Lists
     \/ k = "bitvec" /\ n \in Vectors
     \/ k = "bitdyn" /\ n = 0
  /\ rep = <<<<>>, <<>>>> /\ abs = <<<<>>, <<>>>> /\ hist = <<>>

(* An operation with what it made of the representation and of the          *)
(* sequence; both have to agree on whether it succeeds.                     *)
Op(h, rec, r, a) ==
  /\ Assert(r.ok = a.ok, <<"outcomes differ", rec, rep, abs>>)
  /\ rep' = IF r.ok THEN [rep EXCEPT ![h] = <<r.v>>] ELSE rep
  /\ abs' = IF a.ok THEN [abs EXCEPT ![h] = <<a.v>>] ELSE abs
  /\ hist' = Append(hist, rec)
  /\ UNCHANGED <<k, n>>
  /\ EmitCase(ToJson([k |-> k, n |-> n, ops |-> hist']))

Has(h) == rep[h] # <<>>

(* Lengths, places and byte strings around the boundaries.                  *)
Lens == IF k = "bitdyn" THEN {0, 7, 8, 16} ELSE {l \in {0, 1, 7, 8, n - 1, n, n + 1} : l >= 0}
Places(h) == LET l == rep[h][1].len IN {i \in {0, 6, 7, 8, l - 1, l} : i >= 0 /\ i <= l}
Amounts(h) == LET l == rep[h][1].len IN {i \in {0, 1, 7, 8, l - 1, l, l + 1} : i >= 0 /\ i <= l + 1}
Strings ==
  {<<>>, <<0>>, <<1>>, <<2>>, <<129>>, <<255>>, <<0, 1>>, <<255, 1>>, <<129, 2>>, <<255, 3>>, <<5, 0>>, <<255, 255>>,
   <<1, 0, 1>>}

New(h, len) ==
  /\ k # "bitvec" \/ len = n
  /\ Op(h, [op |-> "new", h |-> h, i |-> len],
        IF k = "bitvec" \/ (k = "bitlist" /\ len <= n) \/ (k = "bitdyn" /\ len > 0 /\ len % 8 = 0)
        THEN Good(NewRep(len)) ELSE Fail,
        NewOf(k, n, len))
FromB(h, b, how) == Op(h, [op |-> how, h |-> h, b |-> b], FromBytes(b), De(BitSchema(k, n), b))
Set(h, i, x) ==
  Op(h, [op |-> "set", h |-> h, i |-> i, x |-> x],
     IF i < rep[h][1].len THEN Good(Put(rep[h][1], i, x)) ELSE Fail, SetOf(abs[h][1], i, x))
Shift(h, m) ==
  Op(h, [op |-> "shift", h |-> h, i |-> m],
     IF m <= rep[h][1].len THEN Good(ShiftRep(rep[h][1], m)) ELSE Fail, ShiftOf(abs[h][1], m))
DiffIn(h, g) ==
  Op(h, [op |-> "diffin", h |-> h, g |-> g], Good(DiffRep(rep[h][1], rep[g][1])),
     Good(DiffOf(k, abs[h][1], abs[g][1])))
Clone(h, g) == Op(h, [op |-> "clone", h |-> h, g |-> g], Good(rep[g][1]), Good(abs[g][1]))
SetOpn(h, f) ==
  Op(h, [op |-> f, h |-> h, g |-> 1, i |-> 2],
     Good(CASE f = "inter" -> InterRep(rep[1][1], rep[2][1])
            [] f = "union" -> UnionRep(rep[1][1], rep[2][1])
            [] f = "diff" -> DiffRep(rep[1][1], rep[2][1])),
     Good(CASE f = "inter" -> InterOf(k, abs[1][1], abs[2][1])
            [] f = "union" -> UnionOf(k, abs[1][1], abs[2][1])
            [] f = "diff" -> DiffOf(k, abs[1][1], abs[2][1])))

Next ==
  /\ Len(hist) < MaxOps
  /\ \E h \in Handles :
       \/ \E len \in Lens : New(h, len)
       \/ \E b \in Strings : FromB(h, b, "decode") \/ FromB(h, b, "bytes")
       \/ Has(h) /\ \/ \E i \in Places(h), x \in {0, 1} : Set(h, i, x)
                    \/ \E m \in Amounts(h) : Shift(h, m)
                    \/ \E g \in Handles : Has(g) /\ DiffIn(h, g)
       \/ \E g \in Handles \ {h} : Has(g) /\ Clone(h, g)
       \/ Has(1) /\ Has(2) /\ \E f \in {"inter", "union", "diff"} : SetOpn(h, f)

(* Two histories that lead to the same values are one state.                *)
Values == <<k, n, rep, abs, Len(hist)>>

(* ---------------------------------------------------------------------- *)
(* Refinement: the bytes are those of the sequence and nothing else.        *)
Refines ==
  \A h \in Handles :
    /\ Has(h) = (abs[h] # <<>>)
    /\ Has(h) =>
       LET r == rep[h][1]
           a == abs[h][1]
       IN /\ r.len = Len(a) /\ ValidLen(k, n, r.len)
          /\ r.by = PackBits(a)
          /\ \A i \in 0..(r.len - 1) : BitAt(r, i) = a[i + 1]

(* What is read off the bytes.                                              *)
Observations ==
  \A h \in Handles : Has(h) =>
     LET r == rep[h][1]
         a == abs[h][1]
     IN /\ HighestOf(r.by) = Highest(a)
        /\ SumSeq([j \in 1..Len(r.by) |-> Ones8(r.by[j])]) = NumOnes(a)
        /\ (\A j \in 1..Len(r.by) : r.by[j] = 0) = (Ones(a) = {})
        /\ IntoBytes(r) = Ser(BitSchema(k, n), a)
        /\ FromBytes(IntoBytes(r)) = Good(r)

(* Equal representations are equal sequences; a subset is told by an empty  *)
(* difference.                                                             *)
Pairs ==
  Has(1) /\ Has(2) =>
    /\ (rep[1] = rep[2]) = (abs[1] = abs[2])
    /\ LET d == DiffRep(rep[1][1], rep[2][1])
       IN (\A j \in 1..Len(d.by) : d.by[j] = 0) = SubsetOf(abs[1][1], abs[2][1])
=============================================================================
