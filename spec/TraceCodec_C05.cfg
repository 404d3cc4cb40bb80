CONSTANT EventOK <- OK_C05
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
