CONSTANT MaxLen = 2
INIT Init
NEXT Next
INVARIANTS Shape Frame
CHECK_DEADLOCK FALSE
