CONSTANT EventOK <- OK_C13
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
