CONSTANT EventOK <- OK_C02
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
