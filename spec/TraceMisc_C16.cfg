CONSTANT EventOK <- OK_C16
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
