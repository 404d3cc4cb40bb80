CONSTANT EventOK <- OK_C08
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
