INIT Init
NEXT Next
CONSTANT Length = 7
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
