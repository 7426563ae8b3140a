INIT Init
NEXT Next
CONSTANT Length = 10
CHECK_DEADLOCK FALSE
