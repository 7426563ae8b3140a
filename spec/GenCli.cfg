INIT Init
NEXT Next
CONSTANT Length = 9
CHECK_DEADLOCK FALSE
