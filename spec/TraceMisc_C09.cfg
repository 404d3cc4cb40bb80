CONSTANT EventOK <- OK_C09
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
