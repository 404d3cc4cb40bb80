---------------------------- MODULE SszBitfield ----------------------------
(***************************************************************************)
(* Bitfields as sequences of booleans (0/1), index 0 first.                 *)
(* k is the kind (bitlist, bitvec, bitdyn), n its capacity.                 *)
(***************************************************************************)
EXTENDS SszCodec

BitSchema(k, n) ==
  CASE k = "bitlist" -> [k |-> "bitlist", n |-> n]
    [] k = "bitvec" -> [k |-> "bitvec", n |-> n]
    [] k = "bitdyn" -> [k |-> "bitdyn"]

(* The lengths a value of the type can have.                               *)
ValidLen(k, n, len) ==
  CASE k = "bitlist" -> len <= n
    [] k = "bitvec" -> len = n
    [] k = "bitdyn" -> len > 0 /\ len % 8 = 0

(* The constructor asked for len bits.  A vector has no choice of length.   *)
NewOf(k, n, len) ==
  IF k = "bitvec" THEN Good(Zeros(n))
  ELSE IF ValidLen(k, n, len) THEN Good(Zeros(len)) ELSE Fail
DefaultBits(k, n) == IF k = "bitdyn" THEN Zeros(8) ELSE Zeros(n)

SetOf(a, i, x) == IF i < Len(a) THEN Good([a EXCEPT ![i + 1] = x]) ELSE Fail
(* Every bit moves up by m places; the low places are cleared.              *)
ShiftOf(a, m) ==
  IF m <= Len(a) THEN Good(Zeros(m) \o SubSeq(a, 1, Len(a) - m)) ELSE Fail

(* The bit at place i (1-based); places beyond the end are 0.               *)
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

UnionOf(k, a, b) ==
  Force([i \in 1..MaxOf(Len(a), Len(b)) |-> IF At(a, i) = 1 \/ At(b, i) = 1 THEN 1 ELSE 0])
InterOf(k, a, b) ==
  LET len == IF k = "bitlist" THEN MinOf(Len(a), Len(b)) ELSE MaxOf(Len(a), Len(b))
  IN Force([i \in 1..len |-> IF At(a, i) = 1 /\ At(b, i) = 1 THEN 1 ELSE 0])
DiffOf(k, a, b) ==
  Force([i \in 1..Len(a) |-> IF a[i] = 1 /\ At(b, i) = 0 THEN 1 ELSE 0])
SubsetOf(a, b) == \A i \in 1..Len(a) : a[i] = 1 => At(b, i) = 1

Ones(a) == {i \in 1..Len(a) : a[i] = 1}
NumOnes(a) == SumSeq(a)
Highest(a) == FoldLeftDomain(LAMBDA top, i : IF a[i] = 1 THEN i - 1 ELSE top, -1, a)

(* Same capacity class or larger: the same set bits, within the new bound.  *)
ResizeOK(a, m, z) == Len(z) <= m /\ Ones(z) = Ones(a)

(* ---------------------------------------------------------------------- *)
(* The 0x-hex string form.  A string is the sequence of its code points.    *)
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
HexValue(c) ==
  IF c \in 48..57 THEN c - 48
  ELSE IF c \in 97..102 THEN c - 87
  ELSE IF c \in 65..70 THEN c - 55 ELSE -1

HexOf(b) ==
  <<48, 120>> \o
  Force([i \in 1..(2 * Len(b)) |->
     LET c == b[((i - 1) \div 2) + 1]
     IN HexDigit(IF i % 2 = 1 THEN c \div 16 ELSE c % 16)])

UnHex(s) ==
  IF Len(s) < 2 \/ Len(s) % 2 # 0 THEN Fail
  ELSE IF s[1] # 48 \/ s[2] # 120 THEN Fail
  ELSE IF \E i \in 3..Len(s) : HexValue(s[i]) < 0 THEN Fail
  ELSE Good(Force([i \in 1..((Len(s) \div 2) - 1) |->
              16 * HexValue(s[2 * i + 1]) + HexValue(s[2 * i + 2])]))
=============================================================================
