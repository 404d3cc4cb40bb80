---------------------------- MODULE DumpUniverse ----------------------------
(* Writes the universe of types and of definitions as JSON, for the         *)
(* generator of the harness and for the trace specifications.               *)
EXTENDS SszUniverse, Json, IOUtils
VARIABLE x
(* The terms as read back: concrete values.  The parameter keeps TLC from   *)
(* evaluating this before the universe has been written.                    *)
Terms(v) == IF v = 0 THEN JsonDeserialize(IOEnv.UNIVERSE) ELSE <<>>
Schemas(v) == LET u == Terms(v) IN
  [i \in 1..Len(u) |-> [e |-> Norm("e", u[i].t), d |-> Norm("d", u[i].t)]]
Init == /\ x = 0
        /\ JsonSerialize(IOEnv.UNIVERSE, Universe(atoi(IOEnv.RANDOM), atoi(IOEnv.SEED)))
        /\ JsonSerialize(IOEnv.SCHEMAS, Schemas(x))
        /\ JsonSerialize(IOEnv.DEFINITIONS, Definitions)
        /\ PrintT(Len(Terms(x)))
Next == FALSE /\ x' = x
=============================================================================
