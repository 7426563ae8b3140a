INIT Init
NEXT Next
CONSTANT Length = 14
CHECK_DEADLOCK FALSE
