INIT Init
NEXT Next
CONSTANT Length = 3
CHECK_DEADLOCK FALSE
