CONSTANT EventOK <- OK_C04
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
