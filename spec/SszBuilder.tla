----------------------------- MODULE SszBuilder -----------------------------
(***************************************************************************)
(* The decoder builder as a state machine, used as documented: items are    *)
(* registered one at a time, registration stops at the first error, the     *)
(* builder is built, and every registered item is taken once, in order.     *)
(*                                                                         *)
(* The client chooses the kind of each item (its length if fixed-size, -1   *)
(* if variable-size) as it goes.  The input is every byte string that       *)
(* matters for that choice of kinds: each offset word anything from 0 to    *)
(* past the end, or huge; the filler bytes all different; cut anywhere.     *)
(* What the machine hands out has to be what Tile says.                     *)
(***************************************************************************)
EXTENDS SszCodec, Emit

CONSTANTS Sizes,      \* of the fixed-size items
          MaxItems,
          MaxTail,    \* bytes past the fixed part
          Slack       \* offset words go this far past the end

VARIABLES phase,   \* "reg", "ok" (all items taken), "err"
          b,       \* the input
          kinds,   \* of the items registered so far, as the client chose
          todo,    \* kinds still to be registered
          pos,     \* where the next fixed part begins
          offs,    \* offsets read so far: <<item, offset>>
          items,   \* byte range of each item: <<from, to>>
          out      \* byte strings handed out
vars == <<phase, b, kinds, todo, pos, offs, items, out>>

(* ---------------------------------------------------------------------- *)
Width(k) == IF k < 0 THEN BytesPerOffset ELSE k
FixedEnd(ks) == SumSeq([i \in 1..Len(ks) |-> Width(ks[i])])

Filler(n) == [i \in 1..n |-> 100 + i]
Huge == <<<<0, 0, 0, 128>>, <<255, 255, 255, 255>>>>

(* The parts an item of kind k may have in the fixed portion, when offsets  *)
(* up to m are of interest.                                                *)
Parts(k, m) == IF k >= 0 THEN {Filler(k)}
               ELSE {OffsetWord(n) : n \in 0..m} \cup {Huge[1], Huge[2]}

RECURSIVE Portions(_, _)
Portions(ks, m) ==
  IF ks = <<>> THEN {<<>>}
  ELSE {p \o q : p \in Parts(Head(ks), m), q \in Portions(Tail(ks), m)}

Inputs(ks) ==
  LET end == FixedEnd(ks)
  IN {p \o Filler(t) : p \in Portions(ks, end + MaxTail + Slack), t \in 0..MaxTail}
     \cup (IF end = 0 THEN {}
           ELSE {SubSeq(p, 1, n) : p \in Portions(ks, 1), n \in 0..(end - 1)})

KindSeqs == UNION {[1..n -> Sizes \cup {-1}] : n \in 0..MaxItems}

Init ==
  /\ todo \in KindSeqs
  /\ b \in Inputs(todo)
  /\ phase = "reg" /\ kinds = <<>> /\ pos = 0 /\ offs = <<>> /\ items = <<>> /\ out = <<>>

(* ---------------------------------------------------------------------- *)
Error == /\ phase' = "err"
         /\ UNCHANGED <<b, kinds, todo, pos, offs, items, out>>

RegisterFixed(k) ==
  IF pos + k > Len(b) THEN Error
  ELSE /\ items' = Append(items, <<pos, pos + k>>)
       /\ pos' = pos + k
       /\ kinds' = Append(kinds, k) /\ todo' = Tail(todo)
       /\ UNCHANGED <<phase, b, offs, out>>

RegisterVariable ==
  IF pos + BytesPerOffset > Len(b) THEN Error
  ELSE LET o == OffsetAt(b, pos)
       IN IF o > Len(b) \/ (offs # <<>> /\ offs[Len(offs)][2] > o) THEN Error
          ELSE /\ offs' = Append(offs, <<Len(items) + 1, o>>)
               /\ items' = Append(items, <<0, 0>>)      \* filled in by Build
               /\ pos' = pos + BytesPerOffset
               /\ kinds' = Append(kinds, -1) /\ todo' = Tail(todo)
               /\ UNCHANGED <<phase, b, out>>

Register ==
  /\ phase = "reg" /\ todo # <<>>
  /\ IF Head(todo) >= 0 THEN RegisterFixed(Head(todo)) ELSE RegisterVariable

Build ==
  /\ phase = "reg" /\ todo = <<>>
  /\ IF offs = <<>> THEN
        IF pos # Len(b) THEN Error
        ELSE phase' = "take" /\ UNCHANGED <<b, kinds, todo, pos, offs, items, out>>
     ELSE IF offs[1][2] # pos THEN Error
     ELSE LET n == Len(offs)
              upto(j) == IF j = n THEN Len(b) ELSE offs[j + 1][2]
          IN /\ items' = FoldLeft(LAMBDA acc, j : [acc EXCEPT ![offs[j][1]] = <<offs[j][2], upto(j)>>],
                                  items, [j \in 1..n |-> j])
             /\ phase' = "take" /\ UNCHANGED <<b, kinds, todo, pos, offs, out>>

Take ==
  /\ phase = "take" /\ Len(out) < Len(items)
  /\ LET r == items[Len(out) + 1] IN out' = Append(out, Slice(b, r[1], r[2]))
  /\ UNCHANGED <<phase, b, kinds, todo, pos, offs, items>>

Finish ==
  /\ phase = "take" /\ Len(out) = Len(items)
  /\ phase' = "ok" /\ UNCHANGED <<b, kinds, todo, pos, offs, items, out>>

Done == phase \in {"ok", "err"} /\ UNCHANGED vars

Next == Register \/ Build \/ Take \/ Finish \/ Done

(* ---------------------------------------------------------------------- *)
(* All the kinds, registered or not.                                        *)
AllKinds == kinds \o todo

(* No step reads outside the input, and no range is backwards.              *)
InBounds ==
  /\ pos <= Len(b)
  /\ \A i \in 1..Len(items) : 0 <= items[i][1] /\ items[i][1] <= items[i][2] /\ items[i][2] <= Len(b)

OffsetsOrdered ==
  \A j \in 1..Len(offs) : offs[j][2] <= Len(b) /\ (j > 1 => offs[j - 1][2] <= offs[j][2])

(* Failing is right only when the input does not tile ...                   *)
ErrorIsRight == phase = "err" => ~Tile(AllKinds, b).ok
(* ... and what is handed out is the tiling, item by item.                  *)
ItemsAreTheTiling ==
  phase \in {"take", "ok"} =>
    LET t == Tile(AllKinds, b)
    IN t.ok /\ out = SubSeq(t.v, 1, Len(out)) /\ (phase = "ok" => out = t.v)

(* The bytes of the items and the offset words are the input, each once.    *)
Partition ==
  phase = "ok" =>
    LET nv == Len(offs)
        sizes == SumSeq([i \in 1..Len(out) |-> Len(out[i])])
    IN /\ sizes + BytesPerOffset * nv = Len(b)
       /\ b = Assemble([i \in 1..Len(kinds) |-> kinds[i] >= 0], out)

(* ---------------------------------------------------------------------- *)
(* The behaviour, as a case for the real builder.                           *)
Emitted == phase \in {"ok", "err"} =>
  EmitCase(ToJson([op |-> "build", kinds |-> AllKinds, b |-> b]))
=============================================================================
