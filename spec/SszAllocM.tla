------------------------------ MODULE SszAllocM ------------------------------
(***************************************************************************)
(* The memory of decoding a list, as a machine: room is reserved for the    *)
(* announced items or the array grows as they come (the old block is freed  *)
(* only once the items are in the new one); each item takes some of the     *)
(* input, needs what the bound of its own type allows while it is decoded,  *)
(* and keeps it; on an error everything is dropped.  There may be copies of  *)
(* the whole input all the while.                                          *)
(*                                                                         *)
(* Whatever the input, no more than Bound is ever live.  As items may       *)
(* themselves be lists (their need is only constrained by their bound),     *)
(* this is the induction step for types of any depth.                      *)
(***************************************************************************)
EXTENDS SszAlloc

CONSTANTS MaxLen, Sizes, PerItem, SlopeOf, ConstOf

VARIABLES n,        \* bytes of input
          d,        \* the type: [m, l, ea, eb] item's size in memory and in the input, its bound
          left,     \* bytes of input not yet taken
          len, cap, \* of the array, in items
          kept,     \* by the items in it
          extra,    \* needed at this moment on top of array and items
          cp,       \* copies of the input
          ph
vars == <<n, cp, d, left, len, cap, kept, extra, ph>>

(* An item of any type with the bound ea, eb.                               *)
TheBound ==
  [a |-> CeilDiv(4 * d.m + d.eb, d.l) + d.ea + Copies, b |-> 8 * d.m + d.eb]
(* It is what SszAlloc computes for a list of items that have such a bound. *)
SameBound ==
  (d.ea = Copies /\ d.eb = 0) => Bound([k |-> "list", m |-> d.m, l |-> d.l, e |-> [k |-> "leaf"]]) = TheBound
SameBufBound ==
  (d.ea = 4 + Copies /\ d.eb = 0) => Bound([k |-> "list", m |-> d.m, l |-> d.l, e |-> [k |-> "buf"]]) = TheBound

Live == d.m * cap + kept + extra + cp * n

Init ==
  /\ n \in 0..MaxLen /\ d \in [m : Sizes, l : PerItem, ea : SlopeOf, eb : ConstOf]
  /\ cp \in {0, Copies} /\ left = n /\ len = 0 /\ kept = 0 /\ extra = 0
  \* reserved for as many items as can be present, or nothing yet
  /\ cap \in {0} \cup 0..(n \div d.l) /\ ph = "next"

(* Decode one item of c bytes (its offset word counted): c is at least l.   *)
Decode ==
  /\ ph = "next" /\ left >= d.l
  /\ \E c \in d.l..left :
       /\ left' = left - c
       /\ extra' = d.ea * c + d.eb
  /\ ph' = "item" /\ UNCHANGED <<n, cp, d, len, cap, kept>>
(* It is there; what it keeps is no more than what it needed.               *)
Keep ==
  /\ ph = "item"
  /\ \E k \in {0, extra} : kept' = kept + k
  /\ extra' = 0 /\ ph' = IF len = cap THEN "full" ELSE "push"
  /\ UNCHANGED <<n, cp, d, left, len, cap>>
(* A new block twice as long (four, or eight small, items at least).        *)
NewCap == MaxOf(2 * cap, IF d.m = 1 THEN 8 ELSE 4)
Grow ==
  /\ ph = "full" /\ extra' = d.m * NewCap /\ ph' = "copy"
  /\ UNCHANGED <<n, cp, d, left, len, cap, kept>>
Copied ==
  /\ ph = "copy" /\ cap' = NewCap /\ extra' = 0 /\ ph' = "push"
  /\ UNCHANGED <<n, cp, d, left, len, kept>>
Push ==
  /\ ph = "push" /\ len' = len + 1 /\ ph' = "next"
  /\ UNCHANGED <<n, cp, d, left, cap, kept, extra>>
Error ==
  /\ ph = "item" /\ kept' = 0 /\ extra' = 0 /\ cap' = 0 /\ len' = 0 /\ left' = 0 /\ ph' = "err"
  /\ UNCHANGED <<n, cp, d>>
Next == Decode \/ Keep \/ Grow \/ Copied \/ Push \/ Error

Spec == Init /\ [][Next]_vars

Bounded == Live <= TheBound.a * n + TheBound.b
BoundedToo == WithinBound(TheBound, n, Live + Slack)
ItemsPresent == len * d.l <= n /\ (ph = "next" => len <= cap)
=============================================================================
