CONSTANTS NumValues = 5 NumEdited = 2 Twice = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS FarOK ValueOK StringOK Emitted
CHECK_DEADLOCK FALSE
