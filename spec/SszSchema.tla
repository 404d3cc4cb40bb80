----------------------------- MODULE SszSchema -----------------------------
(***************************************************************************)
(* The type algebra.  A schema is a record with a kind field k:             *)
(*                                                                         *)
(*   [k |-> "uint", n]        unsigned integer of n bytes (also usize)      *)
(*   [k |-> "nzuint", n]      NonZeroUsize                                  *)
(*   [k |-> "bool"]           boolean                                      *)
(*   [k |-> "bytesN", n]      fixed byte array (also Address, Bloom, ...)   *)
(*   [k |-> "bytes"]          variable byte string (alloy Bytes)            *)
(*   [k |-> "list", e]        Vec / SmallVec of e                           *)
(*   [k |-> "cont", f]        container with fields f (tuples, structs)     *)
(*   [k |-> "option", e]      Union[None, e]                                *)
(*   [k |-> "union", v]       union with variants v                         *)
(*   [k |-> "tag", n]         tag enum with n variants                      *)
(*   [k |-> "tenum", v]       transparent enum with variants v              *)
(*   [k |-> "bitvec", n] [k |-> "bitlist", n] [k |-> "bitdyn"]  bitfields   *)
(*   [k |-> "legacy", e]      Option<e> with a four-byte selector           *)
(*   [k |-> "map", e, w]      BTreeMap<e, w>                                *)
(*   [k |-> "set", e]         BTreeSet<e>                                   *)
(*   [k |-> "trans", f]       transparent struct with exactly one live field *)
(*                            (and r if its values are in descending order) *)
(* Kinds of the harness's custom field codecs (#[ssz(with = ..)]):          *)
(*   [k |-> "uintbe", n]      fixed-size big-endian integer                 *)
(*   [k |-> "uint24"]         a u32 in 3 bytes little-endian                *)
(*   [k |-> "fixbytes", n]    a byte string held to n bytes, fixed-size      *)
(*   [k |-> "varu8"]          a u8 as a variable-size part of one byte       *)
(*   [k |-> "revbytes"]       a byte string in reverse, variable-size        *)
(*                                                                         *)
(*   [k |-> "skip", e]        only as a container field: a skipped field    *)
(*                           whose Rust type has schema e                  *)
(*                                                                         *)
(* Arc, references and transparent structs have the schema of their inner   *)
(* type.                                                                   *)
(***************************************************************************)
EXTENDS SszBytes

IsLive(s) == s.k # "skip"
LiveIdx(f) ==
  SelectSeq(Force([i \in 1..Len(f) |-> i]), LAMBDA i : IsLive(f[i]))

LivePos(s) == LiveIdx(s.f)[1]           \* of a "trans" schema
Wrapped(s) == s.f[LivePos(s)]

RECURSIVE IsFixed(_)
IsFixed(s) ==
  CASE s.k \in {"uint", "nzuint", "uintbe", "uint24", "fixbytes", "bool", "bytesN",
              "tag", "bitvec"} -> TRUE
    [] s.k = "trans" -> IsFixed(Wrapped(s))
    [] s.k = "cont" -> \A i \in 1..Len(s.f) : IsLive(s.f[i]) => IsFixed(s.f[i])
    [] OTHER -> FALSE

(* The number of bytes a value of schema s occupies in the fixed part of    *)
(* its parent: its whole size if it is fixed-size, else one offset word.    *)
RECURSIVE FixedLen(_)
FixedLen(s) ==
  CASE s.k \in {"uint", "nzuint", "uintbe", "bytesN", "fixbytes"} -> s.n
    [] s.k \in {"bool", "tag"} -> 1
    [] s.k = "uint24" -> 3
    [] s.k = "trans" -> FixedLen(Wrapped(s))
    [] s.k = "bitvec" -> BytesForBits(s.n)
    [] s.k = "cont" -> IF IsFixed(s)
                       THEN SumSeq([i \in 1..Len(s.f) |-> IF IsLive(s.f[i]) THEN FixedLen(s.f[i]) ELSE 0])
                       ELSE BytesPerOffset
    [] OTHER -> BytesPerOffset

EntrySchema(s) == [k |-> "cont", f |-> <<s.e, s.w>>]

(* The schema of the items of a list-like schema.                          *)
ItemSchema(s) == IF s.k = "map" THEN EntrySchema(s) ELSE s.e

IsListLike(s) == s.k \in {"list", "map", "set"}

(* SSZ forbids list items of zero encoded length.                          *)
ZeroLen(s) == IsFixed(s) /\ FixedLen(s) = 0

RECURSIVE HasZeroItems(_)
HasZeroItems(s) ==
  CASE IsListLike(s) -> ZeroLen(ItemSchema(s)) \/ HasZeroItems(ItemSchema(s))
    [] s.k \in {"cont", "trans"} -> \E i \in 1..Len(s.f) : HasZeroItems(s.f[i])
    [] s.k \in {"union", "tenum"} -> \E i \in 1..Len(s.v) : HasZeroItems(s.v[i])
    [] s.k \in {"option", "legacy", "skip"} -> HasZeroItems(s.e)
    [] OTHER -> FALSE

RECURSIVE HasKind(_, _)
HasKind(s, ks) ==
  \/ s.k \in ks
  \/ s.k \in {"cont", "trans"} /\ \E i \in 1..Len(s.f) : HasKind(s.f[i], ks)
  \/ s.k \in {"union", "tenum"} /\ \E i \in 1..Len(s.v) : HasKind(s.v[i], ks)
  \/ s.k \in {"option", "legacy", "list", "set", "skip"} /\ HasKind(s.e, ks)
  \/ s.k = "map" /\ (HasKind(s.e, ks) \/ HasKind(s.w, ks))

(* Schemas for which the round trip is claimed (C01).                      *)
RoundTrips(s) == ~HasKind(s, {"tenum"}) /\ ~HasZeroItems(s)

(* Schemas for which decoding is claimed to be canonical (C02).            *)
Canonical(s) == ~HasKind(s, {"tenum", "map", "set"})
=============================================================================
