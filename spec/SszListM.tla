------------------------------ MODULE SszListM ------------------------------
(***************************************************************************)
(* Decoding a list of variable-size items as a state machine: the first     *)
(* offset announces the number of items; the limit is compared with it;     *)
(* then items are decoded one at a time and handed to the collection, which *)
(* may reserve room, take items, or refuse.                                 *)
(***************************************************************************)
EXTENDS SszList, Emit

CONSTANTS MaxItems, MaxTail, Slack, Colls

VARIABLES phase,     \* "start", "items", "ok", "err"
          b, m, coll,
          n,         \* announced number of items
          off,       \* where the next item begins
          got,       \* items decoded
          room       \* items the collection has reserved room for
vars == <<phase, b, m, coll, n, off, got, room>>

Fillers == {<<>>, <<7>>, <<238>>, <<221, 9>>, <<7, 238>>}
Huge == {<<0, 0, 0, 128>>, <<255, 255, 255, 255>>}
Word(k) == {OffsetWord(o) : o \in 0..k} \cup Huge

(* First word: anything; further words: anything; then a tail; also cut.    *)
RECURSIVE Tables(_, _)
Tables(k, top) == IF k = 0 THEN {<<>>} ELSE {w \o t : w \in Word(top), t \in Tables(k - 1, top)}
Inputs ==
  {t \o f : t \in UNION {Tables(k, 4 * k + MaxTail + Slack) : k \in 0..MaxItems}, f \in Fillers}
    \cup {SubSeq(t, 1, MinOf(c, Len(t))) : t \in Tables(1, 13) \cup Tables(2, 9), c \in 0..7}

Init ==
  /\ b \in Inputs /\ m \in -1..(MaxItems + 1) /\ coll \in Colls
  /\ phase = "start" /\ n = 0 /\ off = 0 /\ got = <<>> /\ room = 0

Stop(p) == phase' = p /\ UNCHANGED <<b, m, coll, n, off, got, room>>

Start ==
  /\ phase = "start"
  /\ IF b = <<>> THEN Stop(IF Refuses(coll, <<>>) THEN "err" ELSE "ok")
     ELSE IF Len(b) < BytesPerOffset THEN Stop("err")
     ELSE LET o == OffsetAt(b, 0)
          IN IF o > Len(b) \/ o % BytesPerOffset # 0 \/ o < BytesPerOffset THEN Stop("err")
             ELSE IF m >= 0 /\ o \div BytesPerOffset > m THEN Stop("err")
             ELSE /\ n' = o \div BytesPerOffset /\ off' = o /\ phase' = "items"
                  /\ room' = o \div BytesPerOffset
                  /\ UNCHANGED <<b, m, coll, got>>

Take(x, next) ==
  IF BadItem(x) THEN Stop("err")
  ELSE IF coll # "late2" /\ Refuses(coll, Append(got, x)) THEN Stop("err")
  ELSE /\ got' = Append(got, x) /\ off' = next
       /\ UNCHANGED <<phase, b, m, coll, n, room>>

Item ==
  /\ phase = "items" /\ Len(got) < n
  /\ LET i == Len(got) + 1
     IN IF i = n THEN Take(Drop(b, off), Len(b))
        ELSE LET o == OffsetAt(b, i * BytesPerOffset)
             IN IF o < off \/ o > Len(b) THEN Stop("err") ELSE Take(Slice(b, off, o), o)

Finish ==
  /\ phase = "items" /\ Len(got) = n
  /\ Stop(IF Refuses(coll, got) THEN "err" ELSE "ok")

Done == phase \in {"ok", "err"} /\ UNCHANGED vars
Next == Start \/ Item \/ Finish \/ Done

(* ---------------------------------------------------------------------- *)
ResultIsSpecified ==
  /\ phase = "err" => ~Limited(coll, m, b).ok
  /\ phase = "ok" => Limited(coll, m, b) = Good(CollectInto(coll, got))
(* Refused before any work.                                                *)
LimitFirst == OverLimit(m, b) => phase \in {"start", "err"} /\ got = <<>> /\ room = 0
(* Room is reserved only for items whose offset words are in the input.     *)
RoomIsPresent == BytesPerOffset * room <= Len(b)
NeverMore == Len(got) <= n /\ n <= Len(b) \div BytesPerOffset
InBounds == off <= Len(b)
Emitted == phase \in {"ok", "err"} =>
  EmitCase(ToJson([op |-> "list", b |-> b, m |-> m, coll |-> coll]))
=============================================================================
