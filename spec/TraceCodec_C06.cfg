CONSTANT EventOK <- OK_C06
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
