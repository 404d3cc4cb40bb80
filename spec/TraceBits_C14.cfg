CONSTANT EventOK <- OK_C14
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
