INIT Init
NEXT Next
CONSTANT Steps = 10
CHECK_DEADLOCK FALSE
