----------------------------- MODULE SszLegacyM -----------------------------
(***************************************************************************)
(* SszCodecM for the legacy optional encoding: inner types of both kinds,   *)
(* on its own, as a field, as an item, and optional once more.              *)
(***************************************************************************)
EXTENDS SszCodecM

Lg(e) == [k |-> "legacy", e |-> e]
LegacyBase == <<
  Lg(U(1)), Lg(U(2)), Lg(Bool), Lg(Bs), Lg(L(U(1))), Lg(L(U(2))), Lg(O(U(1))), Lg(C(<<U(1), Bool>>)), Lg(C(<<Bs>>)),
  Lg(Un(<<U(1), Bs>>)), Lg(Bl(3)), Lg(Bv(3)), Lg(C(<<>>)), L(Lg(Bool)), O(Lg(Bool)),
  C(<<Lg(U(1))>>), C(<<U(1), Lg(Bool)>>), C(<<Lg(Bool), U(1)>>), Un(<<Lg(Bool), U(1)>>), Lg(Lg(Bool)) >>
=============================================================================
