INIT Init
NEXT Next
CONSTANT Length = 18
CHECK_DEADLOCK FALSE
