------------------------------ MODULE GenCodec ------------------------------
(***************************************************************************)
(* Behaviours of the codec, generated from the specification for the types  *)
(* that are compiled: for each type some values, what they encode to, and   *)
(* the byte strings one or two edits away from these encodings, with what   *)
(* decoding each of them has to give.  They are replayed into the real      *)
(* code and compared with these answers.                                    *)
(*                                                                         *)
(* On the way, the codec is checked against itself on every type of the     *)
(* universe (SszCodecM does it exhaustively on a few small ones).           *)
(***************************************************************************)
EXTENDS SszFar, Emit, FiniteSets

CONSTANTS NumValues,    \* values per type
          NumEdited,    \* of which so many are edited
          Twice         \* apply a second edit too

VARIABLES ty,           \* a type: its position in the universe
          j,            \* number of the value (its seed)
          ph,           \* "type", "value", "once", "twice"
          v, b
vars == <<ty, j, ph, v, b>>

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Ids == JsonDeserialize(IOEnv.IDS)       \* types that are of interest
SeedOf == atoi(IOEnv.SEED)
Side == IOEnv.SIDE                      \* "enc": values only, "dec": byte strings only

SE == Schemas[ty].e
SD == Schemas[ty].d

(* ---------------------------------------------------------------------- *)
Mix(x, i) == ((x * 7919) + (i * 10473) + 12345) % 65521

Digits(n, x) ==
  CASE x % 5 = 0 -> Zeros(n)
    [] x % 5 = 1 -> Force([i \in 1..n |-> 255])
    [] x % 5 = 2 -> Force([i \in 1..n |-> i % 256])
    [] x % 5 = 3 -> Force([i \in 1..n |-> IF i = ((x % n) + 1) THEN (1 + (x % 255)) ELSE 0])
    [] x % 5 = 4 -> Force([i \in 1..n |-> Mix(x, i) % 256])
Str(n, x) == IF n = 0 THEN <<>> ELSE Digits(n, x)
Bits(n, x) ==
  CASE x % 4 = 0 -> Zeros(n)
    [] x % 4 = 1 -> Force([i \in 1..n |-> 1])
    [] x % 4 = 2 -> Force([i \in 1..n |-> IF i = n THEN 1 ELSE 0])
    [] x % 4 = 3 -> Force([i \in 1..n |-> (Mix(x, i) \div 8) % 2])
Pick(x, opts) == opts[(x % Len(opts)) + 1]

(* The x-th value of schema s (as pseudo-random as need be).               *)
RECURSIVE G(_, _)
Items(e, n, x) == Force([i \in 1..n |-> G(e, Mix(x, i))])
G(s, x) ==
  CASE s.k \in {"uint", "bytesN", "uintbe", "fixbytes"} -> Str(s.n, x)
    [] s.k = "nzuint" -> LET d == Digits(s.n, x)
                         IN IF d = Zeros(s.n) THEN [d EXCEPT ![s.n] = 1] ELSE d
    [] s.k = "uint24" -> <<0>> \o Digits(3, x)
    [] s.k = "varu8" -> Digits(1, x)
    [] s.k = "bool" -> x % 2
    [] s.k = "tag" -> x % s.n
    [] s.k \in {"bytes", "revbytes"} -> Str(Pick(x \div 5, <<0, 1, 2, 3, 5, 9>>), x)
    [] s.k = "list" -> Items(s.e, Pick(x \div 3, <<0, 1, 2, 3, 1>>), x)
    [] s.k \in {"set", "map"} ->
         Collect(s, Items(ItemSchema(s), Pick(x \div 3, <<0, 1, 2, 3, 5>>), x))
    [] s.k \in {"cont", "trans"} -> Force([i \in 1..Len(s.f) |-> G(s.f[i], Mix(x, i))])
    [] s.k = "skip" -> G(s.e, x)
    [] s.k \in {"option", "legacy"} -> IF x % 3 = 0 THEN <<>> ELSE <<G(s.e, Mix(x, 1))>>
    [] s.k \in {"union", "tenum"} -> LET i == (x \div 2) % Len(s.v)
                                     IN <<i, G(s.v[i + 1], Mix(x, 1))>>
    [] s.k = "bitvec" -> Bits(s.n, x)
    [] s.k = "bitlist" ->
         Bits(MinOf(s.n, Pick(x \div 4, <<s.n, 0, 1, 7, 8, 9, MaxOf(s.n, 1) - 1, 16, 33>>)), x)
    [] s.k = "bitdyn" -> Bits(8 * (1 + ((x \div 4) % 3)), x)

(* ---------------------------------------------------------------------- *)
(* One edit of a byte string.                                              *)
(* Where it is edited: everywhere in short strings, at a few places of long *)
(* ones.                                                                   *)
Spots(x) ==
  IF Len(x) <= 10 THEN 1..Len(x)
  ELSE IF Len(x) <= 200 THEN (1..6) \cup {Len(x) - 1, Len(x), 1 + (Mix(j, Len(x)) % Len(x))}
  ELSE {1, Len(x), 1 + (Mix(j, Len(x)) % Len(x))}
Edits(x) ==
  {[x EXCEPT ![p] = (x[p] + d) % 256] : p \in Spots(x), d \in (IF Len(x) > 200 THEN {1} ELSE {1, 255, 4})}
    \cup {x \o t : t \in {<<0>>, <<1>>, <<255>>, <<0, 0, 0, 0>>}}
    \cup (IF x = <<>> THEN {} ELSE {SubSeq(x, 1, Len(x) - 1), Tail(x), SubSeq(x, 1, Len(x) \div 2)})

Init == ty \in {Ids[i] : i \in 1..Len(Ids)} /\ j = 0 /\ ph = "type" /\ v = <<>> /\ b = <<>>

Value ==
  /\ ph = "type" /\ j' \in 1..(IF Side = "enc" THEN 4 * NumValues ELSE NumValues)
  /\ v' = G(SE, Mix(SeedOf, 64 * ty + j')) /\ b' = Ser(SE, v') /\ ph' = "value"
  /\ UNCHANGED ty
(* Encodings on the decoding side (they differ for a few asymmetric types). *)
Base(x) == IF SE = SD THEN x ELSE Ser(SD, G(SD, Mix(SeedOf, 64 * ty + j)))
Edit ==
  /\ Side # "enc" /\ ph = "value" /\ j <= NumEdited
  /\ b' \in {Base(b)} \cup Edits(Base(b))
  /\ ph' = "once" /\ v' = <<>> /\ UNCHANGED <<ty, j>>
Again ==
  /\ Twice /\ ph = "once" /\ j = 1 /\ Len(b) <= 24
  /\ b' \in Edits(b)
  /\ ph' = "twice" /\ UNCHANGED <<ty, j, v>>
Next == Value \/ Edit \/ Again

(* The number of the value does not matter once there is a byte string.     *)
View == <<ty, ph = "type", ph = "value", v, b, IF ph = "value" THEN j ELSE 0>>

(* ---------------------------------------------------------------------- *)
Emitted ==
  CASE ph = "value" ->
         Side # "dec" => EmitCase(ToJson([op |-> "enc", ty |-> ty, v |-> v, b |-> b, rt |-> RoundTrips(SE) /\ SE = SD,
                          d |-> IF RoundTrips(SE) /\ SE = SD THEN Erase(SE, v) ELSE <<>>]))
    [] ph \in {"once", "twice"} ->
         LET r == De(SD, b)
         IN EmitCase(ToJson([op |-> "dec", ty |-> ty, b |-> b, ok |-> r.ok, v |-> IF r.ok THEN r.v ELSE <<>>]))
    [] OTHER -> TRUE

ValueOK ==
  ph = "value" =>
    /\ WellTyped(SE, v)
    /\ IsByteString(b)
    /\ IsFixed(SE) => Len(b) = FixedLen(SE)
    /\ RoundTrips(SE) /\ SE = SD => De(SD, b) = Good(Erase(SE, v))
(* The codec over run strings is the same codec. *)
Runnable(s) == ~HasKind(s, {"set", "map"}) /\ Len(b) <= 60
FarOK ==
  /\ ph = "value" /\ Runnable(SE) =>
       /\ FarSer(SE, Far(SE, v)) = Runs(b)
       /\ FarErase(SE, Far(SE, v)) = Far(SE, Erase(SE, v))
  /\ ph \in {"once", "twice"} /\ Runnable(SD) =>
       LET r == De(SD, b)
       IN FarDe(SD, Runs(b)) = IF r.ok THEN Good(Far(SD, r.v)) ELSE Fail
StringOK ==
  ph \in {"once", "twice"} =>
    LET r == De(SD, b)
    IN r.ok => /\ WellTyped(SD, r.v)
               /\ Canonical(SD) /\ ~HasZeroItems(SD) => Ser(SD, r.v) = b
               /\ RoundTrips(SD) => De(SD, Ser(SD, r.v)) = r
=============================================================================
