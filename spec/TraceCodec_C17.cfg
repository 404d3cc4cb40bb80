CONSTANT EventOK <- OK_C17
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
