----------------------------- MODULE SszDerive -----------------------------
(***************************************************************************)
(* Type terms: the Rust types of the library and the type definitions given *)
(* to #[derive(Encode, Decode)], and the SSZ schema each of them denotes.   *)
(*                                                                         *)
(*   [t |-> "u8"] .. "u128", "usize", "nz", "bool", "U128", "U256",         *)
(*   "Address", "Bloom", "Bytes", "bitdyn"                  leaf types      *)
(*   [t |-> "arr", n] [t |-> "fb", n] [t |-> "bitvec", n] [t |-> "bitlist", n] *)
(*   [t |-> "vec", e] [t |-> "svec", n, e] [t |-> "opt", e] [t |-> "arc", e] *)
(*   [t |-> "set", e] [t |-> "map", e, w] [t |-> "tup", f]                  *)
(*   [t |-> "legacy", e]          the module made by four_byte_option_impl! *)
(*   [t |-> "struct", named, beh, f]  f: sequence of [ty, ss, sd, w]        *)
(*        ss/sd: skip_serializing / skip_deserializing;                     *)
(*        w: "" or the codec module: "legacy" (field type must be opt),     *)
(*           "be" (uint type), "u24" (u32), "fix2" (Bytes), "varu8" (u8),     *)
(*           "rev" (Bytes): the custom codecs of SszSchema                  *)
(*        and r: the type is ordered the other way round (its Ord is written *)
(*        by hand)                                                          *)
(*   [t |-> "enum", beh, v]           v: sequence of variants, each the     *)
(*        sequence of the variant's field types; a field type may be         *)
(*   [t |-> "with", w, e]             the type e through the codec module w  *)
(*                                                                         *)
(* beh is "" (no behaviour attribute), a behaviour name, or anything else   *)
(* (an unknown one).                                                       *)
(***************************************************************************)
EXTENDS SszCodec

MaxVariants == 128

LeafSchema(t) ==
  CASE t.t = "u8" -> [k |-> "uint", n |-> 1]
    [] t.t = "u16" -> [k |-> "uint", n |-> 2]
    [] t.t = "u32" -> [k |-> "uint", n |-> 4]
    [] t.t \in {"u64", "usize"} -> [k |-> "uint", n |-> 8]
    [] t.t \in {"u128", "U128"} -> [k |-> "uint", n |-> 16]
    [] t.t = "U256" -> [k |-> "uint", n |-> 32]
    [] t.t = "nz" -> [k |-> "nzuint", n |-> 8]
    [] t.t = "bool" -> [k |-> "bool"]
    [] t.t = "Address" -> [k |-> "bytesN", n |-> 20]
    [] t.t = "Bloom" -> [k |-> "bytesN", n |-> 256]
    [] t.t \in {"arr", "fb"} -> [k |-> "bytesN", n |-> t.n]
    [] t.t = "Bytes" -> [k |-> "bytes"]
    [] t.t = "bitdyn" -> [k |-> "bitdyn"]
    [] t.t = "bitvec" -> [k |-> "bitvec", n |-> t.n]
    [] t.t = "bitlist" -> [k |-> "bitlist", n |-> t.n]

IsLeaf(t) == t.t \notin {"vec", "svec", "opt", "arc", "set", "map", "tup", "legacy",
                         "struct", "enum", "with"}

(* The schema of a type term, for the encoder (side = "e") and for the      *)
(* decoder (side = "d"): they differ only in which fields are skipped.      *)
Skipped(side, fld) == IF side = "e" THEN fld.ss ELSE fld.sd

RECURSIVE Norm(_, _)
(* The schema of a value of schema s through the codec module w.            *)
Through(w, s) ==
  CASE w = "" -> s
    [] w = "legacy" -> [k |-> "legacy", e |-> s.e]
    [] w = "be" -> [k |-> "uintbe", n |-> s.n]
    [] w = "u24" -> [k |-> "uint24"]
    [] w = "fix2" -> [k |-> "fixbytes", n |-> 2]
    [] w = "varu8" -> [k |-> "varu8"]
    [] w = "rev" -> [k |-> "revbytes"]
FieldSchema(side, fld) == Through(fld.w, Norm(side, fld.ty))
Norm(side, t) ==
  CASE IsLeaf(t) -> LeafSchema(t)
    [] t.t \in {"vec", "svec"} -> [k |-> "list", e |-> Norm(side, t.e)]
    [] t.t = "opt" -> [k |-> "option", e |-> Norm(side, t.e)]
    [] t.t = "arc" -> Norm(side, t.e)
    [] t.t = "set" -> [k |-> "set", e |-> Norm(side, t.e)]
    [] t.t = "map" -> [k |-> "map", e |-> Norm(side, t.e), w |-> Norm(side, t.w)]
    [] t.t = "tup" -> [k |-> "cont", f |-> [i \in 1..Len(t.f) |-> Norm(side, t.f[i])]]
    [] t.t = "legacy" -> [k |-> "legacy", e |-> Norm(side, t.e)]
    [] t.t = "with" -> Through(t.w, Norm(side, t.e))
    [] t.t = "struct" ->
         LET f == [i \in 1..Len(t.f) |->
                     IF Skipped(side, t.f[i])
                     THEN [k |-> "skip", e |-> Norm(side, t.f[i].ty)]
                     ELSE FieldSchema(side, t.f[i])]
         IN IF t.beh = "transparent"
            THEN IF "r" \in DOMAIN t THEN [k |-> "trans", f |-> f, r |-> TRUE]
                 ELSE [k |-> "trans", f |-> f]
            ELSE [k |-> "cont", f |-> f]
    [] t.t = "enum" ->
         CASE t.beh = "tag" -> [k |-> "tag", n |-> Len(t.v)]
           [] t.beh = "union" ->
                [k |-> "union", v |-> [i \in 1..Len(t.v) |-> Norm(side, t.v[i][1])]]
           [] t.beh = "transparent" ->
                [k |-> "tenum", v |-> [i \in 1..Len(t.v) |-> Norm(side, t.v[i][1])]]

(* ---------------------------------------------------------------------- *)
(* Definitions that have an SSZ meaning, and so must be accepted by the     *)
(* derive macro of that side ...                                           *)
NumLive(side, t) == Len(SelectSeq(t.f, LAMBDA fld : ~Skipped(side, fld)))

Meaningful(side, t) ==
  CASE t.t = "struct" /\ t.beh \in {"", "container"} -> t.named
    [] t.t = "struct" /\ t.beh = "transparent" -> NumLive(side, t) = 1
    [] t.t = "enum" /\ t.beh = "union" ->
         Len(t.v) \in 1..MaxVariants /\ \A i \in 1..Len(t.v) : Len(t.v[i]) = 1
    [] t.t = "enum" /\ t.beh = "tag" ->
         Len(t.v) \in 1..MaxVariants /\ \A i \in 1..Len(t.v) : Len(t.v[i]) = 0
    [] t.t = "enum" /\ t.beh = "transparent" ->
         Len(t.v) >= 1 /\ \A i \in 1..Len(t.v) : Len(t.v[i]) = 1
    [] OTHER -> FALSE

(* ... and definitions that are claimed to have none, and so must be        *)
(* rejected: zero or more than 128 union variants, a transparent struct     *)
(* without exactly one live field, an enum without a declared behaviour.    *)
(* (Other meaningless definitions are rejected by the current macro too,    *)
(* but a macro that gave them a meaning would not break the property.)      *)
Meaningless(side, t) ==
  CASE t.t = "struct" /\ t.beh = "transparent" -> NumLive(side, t) # 1
    [] t.t = "enum" /\ t.beh = "union" -> Len(t.v) = 0 \/ Len(t.v) > MaxVariants
    [] t.t = "enum" /\ t.beh = "" -> TRUE
    [] OTHER -> FALSE
=============================================================================
