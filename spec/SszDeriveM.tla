----------------------------- MODULE SszDeriveM -----------------------------
(***************************************************************************)
(* Type definitions, as they are written: a struct or an enum with one of   *)
(* the behaviour attributes grows field by field (variant by variant).      *)
(* Checked of each definition: what SszDerive says about it hangs together. *)
(*                                                                         *)
(* Every definition that must be accepted, or must be rejected, is given to *)
(* the real macros (both sides on their own) and the compiler's answer is   *)
(* compared with this specification.                                        *)
(***************************************************************************)
EXTENDS SszDerive, Emit

CONSTANTS MaxFields, MaxVars

VARIABLE t
vars == <<t>>

U8 == [t |-> "u8"]
U32 == [t |-> "u32"]
BytesT == [t |-> "Bytes"]
Fl(ty, ss, sd, w) == [ty |-> ty, ss |-> ss, sd |-> sd, w |-> w]
Fields == {Fl(U8, FALSE, FALSE, ""), Fl(BytesT, FALSE, FALSE, ""), Fl(BytesT, TRUE, TRUE, ""),
           Fl(U8, TRUE, FALSE, ""), Fl(BytesT, FALSE, TRUE, ""), Fl(U32, FALSE, FALSE, "be"),
           Fl(BytesT, FALSE, FALSE, "rev")}
Variants == {<<>>, <<U8>>, <<BytesT>>, <<U8, BytesT>>}

Init ==
  \/ \E n \in BOOLEAN, beh \in {"", "container", "transparent"} :
       t = [t |-> "struct", named |-> n, beh |-> beh, f |-> <<>>]
  \/ \E beh \in {"", "transparent", "union", "tag"} :
       t = [t |-> "enum", beh |-> beh, v |-> <<>>]

AddField ==
  /\ t.t = "struct" /\ Len(t.f) < MaxFields
  /\ \E fld \in Fields : t' = [t EXCEPT !.f = Append(@, fld)]
AddVariant ==
  /\ t.t = "enum" /\ Len(t.v) < MaxVars
  /\ \E w \in Variants : t' = [t EXCEPT !.v = Append(@, w)]
Next == AddField \/ AddVariant

(* ---------------------------------------------------------------------- *)
Sides == {"e", "d"}

(* Nothing both has to be accepted and has to be rejected.                  *)
Decided == \A s \in Sides : ~(Meaningful(s, t) /\ Meaningless(s, t))

(* The schema of a container or of a wrapper: as many parts as fields; the  *)
(* skipped ones take no bytes and no place in the fixed part.               *)
RECURSIVE SumOf(_)
SumOf(x) == IF x = <<>> THEN 0 ELSE Head(x) + SumOf(Tail(x))
Live(s) == SelectSeq(t.f, LAMBDA fld : ~Skipped(s, fld))
Structs ==
  t.t = "struct" => \A s \in Sides : Meaningful(s, t) =>
    LET n == Norm(s, t)
        l == [i \in 1..Len(Live(s)) |-> FieldSchema(s, Live(s)[i])]
        bare == [t EXCEPT !.f = [i \in 1..Len(Live(s)) |-> [Live(s)[i] EXCEPT !.ss = FALSE, !.sd = FALSE]]]
        d == DefaultOf(n)
    IN /\ IF n.k = "trans"
          THEN IsFixed(n) = IsFixed(l[1]) /\ FixedLen(n) = FixedLen(l[1])
          ELSE /\ IsFixed(n) <=> \A i \in 1..Len(l) : IsFixed(l[i])
               /\ IsFixed(n) => FixedLen(n) = SumOf([i \in 1..Len(l) |-> FixedLen(l[i])])
               /\ ~IsFixed(n) => FixedLen(n) = 4
       \* the default value's encoding is that of the definition without the skipped fields
       /\ Ser(n, d) = Ser(Norm(s, bare), DefaultOf(Norm(s, bare)))
       /\ De(n, Ser(n, d)) = [ok |-> TRUE, v |-> d]
       /\ n.k = "trans" => Ser(n, d) = Ser(l[1], DefaultOf(l[1]))

(* The schema of an enum: a selector names the variant of its index.        *)
Enums ==
  t.t = "enum" /\ Meaningful("e", t) =>
    LET n == Norm("e", t) IN
    /\ n = Norm("d", t)
    /\ CASE n.k = "tag" -> /\ IsFixed(n) /\ FixedLen(n) = 1
                           /\ \A x \in 0..255 : De(n, <<x>>).ok <=> x < Len(t.v)
         [] n.k = "union" ->
              /\ ~IsFixed(n) /\ FixedLen(n) = 4
              /\ ~De(n, <<>>).ok
              /\ \A x \in 0..255 : De(n, <<x, 7>>).ok <=> x < Len(t.v)
              /\ \A i \in 1..Len(t.v) : De(n, <<i - 1, 7>>).v[1] = i - 1
         [] n.k = "tenum" ->
              \* the first variant that accepts it
              \A x \in {<<>>, <<7>>, <<7, 8>>} :
                 LET r == De(n, x)
                     a == {i \in 1..Len(t.v) : De(n.v[i], x).ok}
                 IN (r.ok <=> a # {}) /\ (r.ok => r.v[1] + 1 \in a /\ \A i \in a : r.v[1] + 1 <= i)

(* Definitions whose acceptance is claimed.                                 *)
Claimed == \E s \in Sides : Meaningful(s, t) \/ Meaningless(s, t)
Emitted == Claimed => EmitCase(ToJson(t))

Spec == Init /\ [][Next]_vars
=============================================================================
