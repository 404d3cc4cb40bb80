CONSTANTS MaxDigits = 4 Digits = {48, 49, 56, 97, 70} Others = {32, 47, 58, 64, 71, 88, 96, 103, 233} Lists = {0, 1, 3, 7, 8, 9, 16} Vectors = {0, 1, 4, 7, 8, 9, 15, 16}
INIT Init
NEXT Next
INVARIANTS ParseOK WrittenOK Emitted
CHECK_DEADLOCK FALSE
