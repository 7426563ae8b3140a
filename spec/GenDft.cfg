INIT Init
NEXT Next
CONSTANT Length = 8
CHECK_DEADLOCK FALSE
