CONSTANT EventOK <- OK_C20
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
