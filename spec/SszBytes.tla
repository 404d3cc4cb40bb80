------------------------------ MODULE SszBytes ------------------------------
(***************************************************************************)
(* Byte strings, bit strings, digit strings and the 4-byte offset word.     *)
(*                                                                         *)
(* A byte string is a sequence over 0..255.  An unsigned integer of any     *)
(* width is represented by its base-256 digits, most significant first      *)
(* (TLC integers are 32-bit, SSZ integers are up to 256-bit).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

(* A function or sequence with all its elements evaluated (TLC otherwise     *)
(* evaluates an element each time it is applied).  Semantically Force(x) = x *)
Force(x) == TLCEval(x)

Byte == 0..255

BytesPerOffset == 4

(* Any offset of 2^30 or more is beyond every byte string this model or a   *)
(* recorded execution contains; it is represented by one sentinel.          *)
BigOffset == 1073741824

MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b

CeilDiv(a, b) == (a + b - 1) \div b

Pow2(n) == 2^n

(* The bytes b[i+1..j] (0-based half-open range [i, j), as in the code).    *)
Slice(b, i, j) == SubSeq(b, i + 1, j)

Drop(b, i) == SubSeq(b, i + 1, Len(b))

Rev(s) == Force([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])

Zeros(n) == Force([i \in 1..n |-> 0])

(* Concatenation of a sequence of byte strings.                             *)
Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

SumSeq(ns) == FoldLeft(LAMBDA acc, n : acc + n, 0, ns)

(* ---------------------------------------------------------------------- *)
(* Integers <-> little-endian bytes.                                       *)

DigitsToLE(digits) == Rev(digits)
LEToDigits(bytes) == Rev(bytes)

(* Little-endian word of a natural number n < 2^31 in k bytes.             *)
OffsetWord(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256,
                   (n \div 16777216) % 256>>

(* The natural number denoted by the 4 bytes at 0-based position i of b.   *)
OffsetAt(b, i) ==
  IF b[i + 4] >= 64 THEN BigOffset
  ELSE b[i + 1] + 256 * b[i + 2] + 65536 * b[i + 3] + 16777216 * b[i + 4]

(* ---------------------------------------------------------------------- *)
(* Bits <-> bytes (bit i of the string is bit (i % 8) of byte (i \div 8)).  *)

BitOf(byte, k) == (byte \div Pow2(k)) % 2

BytesForBits(n) == MaxOf(1, CeilDiv(n, 8))

PackBits(bits) ==
  Force([j \in 1..BytesForBits(Len(bits)) |->
     LET B(k) == LET i == (j - 1) * 8 + k + 1
                 IN IF i <= Len(bits) THEN bits[i] * Pow2(k) ELSE 0
     IN B(0) + B(1) + B(2) + B(3) + B(4) + B(5) + B(6) + B(7)])

UnpackBits(bytes, n) ==
  Force([i \in 1..n |-> BitOf(bytes[((i - 1) \div 8) + 1], (i - 1) % 8)])

HighBit(byte) ==
  IF byte >= 128 THEN 7 ELSE IF byte >= 64 THEN 6 ELSE IF byte >= 32 THEN 5
  ELSE IF byte >= 16 THEN 4 ELSE IF byte >= 8 THEN 3 ELSE IF byte >= 4 THEN 2
  ELSE IF byte >= 2 THEN 1 ELSE 0

IsByteString(b) == \A i \in 1..Len(b) : b[i] \in Byte
=============================================================================
