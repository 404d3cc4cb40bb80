CONSTANT EventOK <- OK_C11
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
