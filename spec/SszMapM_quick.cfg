CONSTANTS MaxEntries = 4 Prefix = {0, 21, 40}
INIT Init
NEXT Next
INVARIANTS AscendingOK CollectOK DecodeOK FixpointOK LastWins SwapOK Emitted
CHECK_DEADLOCK FALSE
