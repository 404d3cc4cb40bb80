CONSTANT EventOK <- OK_C03
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
