CONSTANT EventOK <- OK_C07
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
