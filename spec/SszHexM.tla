------------------------------ MODULE SszHexM ------------------------------
(***************************************************************************)
(* Reading the serde form of a bitfield one character at a time: "0", "x",  *)
(* then pairs of hex digits.  The machine is compared with the declarative  *)
(* UnHex, and what the bytes mean for every type with the codec; the        *)
(* strings are replayed into the real types through every deserializer.     *)
(***************************************************************************)
EXTENDS SszBitfield, Emit

CONSTANTS MaxDigits, Digits,     \* hex digits, as code points
          Others,                \* code points that are no hex digits
          Lists, Vectors         \* capacities

VARIABLES str,      \* what was read
          st,       \* "start", "zero", "even", "odd", "bad"
          by,       \* the bytes so far
          hi        \* the pending digit
vars == <<str, st, by, hi>>

Init == str = <<>> /\ st = "start" /\ by = <<>> /\ hi = 0

Read(c) ==
  /\ str' = Append(str, c)
  /\ CASE st = "start" /\ c = 48 -> st' = "zero" /\ UNCHANGED <<by, hi>>
       [] st = "zero" /\ c = 120 -> st' = "even" /\ UNCHANGED <<by, hi>>
       [] st = "even" /\ HexValue(c) >= 0 -> st' = "odd" /\ hi' = HexValue(c) /\ UNCHANGED by
       [] st = "odd" /\ HexValue(c) >= 0 ->
            st' = "even" /\ by' = Append(by, (16 * hi) + HexValue(c)) /\ hi' = 0
       [] OTHER -> st' = "bad" /\ UNCHANGED <<by, hi>>

(* After something bad two more characters are enough. *)
Next ==
  \/ /\ st # "bad" /\ Len(str) < 2 + MaxDigits
     /\ \E c \in Digits \cup Others \cup {48, 120} : Read(c)
  \/ /\ st = "bad" /\ Len(str) < 6
     /\ \E c \in {48, 49} : Read(c)

(* ---------------------------------------------------------------------- *)
Types == {<<"bitlist", n>> : n \in Lists} \cup {<<"bitvec", n>> : n \in Vectors} \cup {<<"bitdyn", 0>>}

Parsed == IF st = "even" THEN Good(by) ELSE Fail
ParseOK == UnHex(str) = Parsed
Answer(t) == IF Parsed.ok THEN De(BitSchema(t[1], t[2]), by) ELSE Fail
Lower(c) == IF c \in 65..70 THEN c + 32 ELSE c
(* What is accepted is written as it was read, in lower case.               *)
WrittenOK ==
  \A t \in Types :
    LET r == Answer(t)
    IN r.ok => /\ HexOf(Ser(BitSchema(t[1], t[2]), r.v)) = Force([i \in 1..Len(str) |-> Lower(str[i])])
               /\ ValidLen(t[1], t[2], Len(r.v))

RECURSIVE AsSeq(_)
AsSeq(x) == IF x = {} THEN <<>> ELSE LET t == CHOOSE t \in x : TRUE IN <<t>> \o AsSeq(x \ {t})
Ts == AsSeq(Types)
Emitted ==
  Emitting =>
    EmitCase(ToJson([op |-> "hex", s |-> str,
                     as |-> [i \in 1..Len(Ts) |->
                              LET r == Answer(Ts[i])
                              IN [k |-> Ts[i][1], n |-> Ts[i][2], ok |-> r.ok,
                                  v |-> IF r.ok THEN r.v ELSE <<>>]]]))
=============================================================================
