CONSTANTS NumValues = 12 NumEdited = 6 Twice = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANTS FarOK ValueOK StringOK Emitted
CHECK_DEADLOCK FALSE
