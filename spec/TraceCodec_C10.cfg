CONSTANT EventOK <- OK_C10
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
