------------------------------ MODULE SszAlloc ------------------------------
(***************************************************************************)
(* How much memory decoding n bytes into a type may have live at once.      *)
(*                                                                         *)
(* A type is described by what its decoded values allocate:                 *)
(*   leaf: nothing;  buf: one buffer no longer than the input;              *)
(*   list(m, l, e): one array of items of m bytes in memory, each item      *)
(*      standing for at least l bytes of input, holding e;                  *)
(*   tree(m, l, e): the same as nodes of an ordered collection;             *)
(*   box(m, e): one shared allocation;  all(f): the parts of a container.   *)
(*                                                                         *)
(* Bound is an affine function a*n + b of the input length: growing an      *)
(* array doubles it (at most 2x the items, old and new block alive at once, *)
(* so 4m per item) and starts at no more than 8 items.  At every level of   *)
(* the type a few copies of the input may be made as well (Copies bytes per  *)
(* byte): the levels are a property of the type.  A type that contains      *)
(* itself has no number of levels: see RecBound.                            *)
(***************************************************************************)
EXTENDS SszBytes

Copies == 4

RECURSIVE Bound(_)
Bound(d) ==
  CASE d.k = "leaf" -> [a |-> Copies, b |-> 0]
    [] d.k = "buf" -> [a |-> 4 + Copies, b |-> 0]
    [] d.k = "list" -> LET e == Bound(d.e)
                       IN [a |-> CeilDiv(4 * d.m + e.b, d.l) + e.a + Copies, b |-> 8 * d.m + e.b]
    [] d.k = "tree" -> LET e == Bound(d.e)
                       IN [a |-> CeilDiv(8 * (d.m + 16) + e.b, d.l) + e.a + Copies,
                           b |-> 16 * (d.m + 16) + e.b]
    [] d.k = "box" -> LET e == Bound(d.e) IN [a |-> e.a + Copies, b |-> d.m + 32 + e.b]
    [] d.k = "all" ->
         LET es == [i \in 1..Len(d.f) |-> Bound(d.f[i])]
         IN [a |-> FoldLeft(LAMBDA x, e : MaxOf(x, e.a), 0, es) + Copies,
             b |-> FoldLeft(LAMBDA x, e : x + e.b, 128 * Len(d.f), es)]

(* A recursive type each of whose values takes m bytes in memory and is held *)
(* with others of its kind in an array or in an allocation of its own, and  *)
(* stands for at least l bytes of the input: an array has room for four or   *)
(* twice its values (old and new block), an allocation has a header, and    *)
(* what a level needs while it is decoded does not depend on the input.     *)
RecBound(r) == [a |-> CeilDiv(8 * r.m + 192, r.l) + Copies, b |-> 8 * r.m + 192]
Rec(def) == CASE def = "Tree" -> [m |-> 24, l |-> 8]     \* offset of the list, offset in it
              [] def = "Node" -> [m |-> 16, l |-> 6]     \* number, offset, selector
              [] def = "Chain" -> [m |-> 16, l |-> 1]    \* selector

(* What an error value and the caller's bookkeeping may take.               *)
Slack == 8192

(* peak <= bd.a * n + bd.b + Slack, within the integers TLC has              *)
WithinBound(bd, n, peak) ==
  LET over == peak - bd.b - Slack
  IN over <= 0 \/ (n > 0 /\ (over - 1) \div n + 1 <= bd.a)
=============================================================================
