CONSTANT EventOK <- OK_C01
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
