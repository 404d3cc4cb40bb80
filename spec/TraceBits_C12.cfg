CONSTANT EventOK <- OK_C12
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
