CONSTANTS MaxEntries = 5 Prefix = {0, 11, 12, 21, 40, 66}
INIT Init
NEXT Next
INVARIANTS AscendingOK CollectOK DecodeOK FixpointOK LastWins SwapOK Emitted
CHECK_DEADLOCK FALSE
