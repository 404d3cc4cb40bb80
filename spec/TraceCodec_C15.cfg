CONSTANT EventOK <- OK_C15
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
