-------------------------------- MODULE Emit --------------------------------
(***************************************************************************)
(* Behaviours of the models are written, one JSON record a line, to the     *)
(* file named by the environment variable CASES (if there is one), to be    *)
(* replayed into the real code.                                            *)
(***************************************************************************)
EXTENDS Json, IOUtils, CSV, Integers, Sequences

Emitting == "CASES" \in DOMAIN IOEnv /\ IOEnv.CASES # ""
(* One write of more than 8192 bytes would not be atomic among workers.     *)
EmitCase(text) == Emitting /\ Len(text) <= 7900 => CSVWrite("%1$s", <<text>>, IOEnv.CASES)
=============================================================================
