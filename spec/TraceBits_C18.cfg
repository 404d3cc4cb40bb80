CONSTANT EventOK <- OK_C18
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
