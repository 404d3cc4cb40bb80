CONSTANT EventOK <- OK_C19
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
