INIT Init
NEXT Next
CONSTANT Length = 24
CHECK_DEADLOCK FALSE
