---------------------------- MODULE SszEncoderM ----------------------------
(***************************************************************************)
(* The container encoder as a state machine.  An encoder writes into the    *)
(* buffer it was given, keeps the variable parts aside, and moves them to   *)
(* the buffer's end when finalized.  A nested container is encoded by an    *)
(* encoder of its own, into the outer encoder's buffer if it is fixed-size, *)
(* into its variable bytes if not.                                          *)
(***************************************************************************)
EXTENDS SszTree, Emit

CONSTANTS Width,      \* parts of a container
          Depth,      \* of nesting
          Pres        \* how many bytes the buffer may hold beforehand

VARIABLES pre, tree,
          stack,      \* of [todo, buf, var, off, base, to, t]: innermost last
          result
vars == <<pre, tree, stack, result>>

Leaves == {<<1, <<>>>>, <<1, <<41>>>>, <<0, <<>>>>, <<0, <<51, 52>>>>}
RECURSIVE Trees(_)
Trees(d) ==
  LET parts == Leaves \cup (IF d = 0 THEN {} ELSE {<<2, t>> : t \in Trees(d - 1)})
  IN UNION {[1..n -> parts] : n \in 0..(IF d = 0 THEN MinOf(2, Width) ELSE Width)}

(* t: its container; base: what the buffer held before; to: which buffer of the encoder below *)
Frame(t, buf, to) ==
  [todo |-> t, buf |-> buf, var |-> <<>>, off |-> FixedPortion(t), base |-> buf, to |-> to, t |-> t]

Init ==
  /\ tree \in Trees(Depth)
  /\ pre \in {[i \in 1..n |-> 200 + i] : n \in Pres}
  /\ stack = <<Frame(tree, pre, "client")>>
  /\ result = <<>>

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)

Append1 ==
  /\ stack # <<>> /\ Top.todo # <<>>
  /\ LET p == Head(Top.todo)
         word == OffsetWord(Top.off + Len(Top.var))
         rest == [Top EXCEPT !.todo = Tail(@)]
     IN IF IsLeafPart(p) THEN
          stack' = Append(Below,
            IF p[1] = 1 THEN [rest EXCEPT !.buf = @ \o p[2]]
            ELSE [rest EXCEPT !.buf = @ \o word, !.var = @ \o p[2]])
        ELSE IF PartFixed(p) THEN
          stack' = Append(Append(Below, rest), Frame(p[2], rest.buf, "buf"))
        ELSE
          stack' = Append(Append(Below, [rest EXCEPT !.buf = @ \o word]), Frame(p[2], rest.var, "var"))
  /\ UNCHANGED <<pre, tree, result>>

Finalize ==
  /\ stack # <<>> /\ Top.todo = <<>>
  /\ LET done == Top.buf \o Top.var
     IN IF Len(stack) = 1 THEN stack' = <<>> /\ result' = <<done>>
        ELSE LET o == stack[Len(stack) - 1]
             IN /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2),
                              IF Top.to = "var" THEN [o EXCEPT !.var = done] ELSE [o EXCEPT !.buf = done])
                /\ result' = result
  /\ UNCHANGED <<pre, tree>>

Done == stack = <<>> /\ UNCHANGED vars
Next == Append1 \/ Finalize \/ Done

(* ---------------------------------------------------------------------- *)
(* Nothing that was in a buffer is ever touched.                            *)
AppendOnly ==
  /\ \A i \in 1..Len(stack) : SubSeq(stack[i].buf, 1, Len(stack[i].base)) = stack[i].base
  /\ stack # <<>> => stack[1].base = pre
(* The encoding does not depend on the buffer it goes to.                   *)
ResultIsSpecified == stack = <<>> => result = <<pre \o SerTree(tree)>>
(* A nested encoder adds its own container's encoding and nothing else.     *)
NestedIsStandalone ==
  stack # <<>> /\ Top.todo = <<>> =>
    Drop(Top.buf, Len(Top.base)) \o Top.var = SerTree(Top.t)
FixedPortionIsStated ==
  stack # <<>> /\ Top.todo = <<>> => Len(Top.buf) - Len(Top.base) = Top.off

Emitted == stack = <<>> =>
  EmitCase(ToJson([op |-> "tree", pre |-> pre, t |-> tree]))
=============================================================================
