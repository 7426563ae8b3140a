INIT Init
NEXT Next
CONSTANTS MaxSize = 64
INVARIANTS IsDft
CHECK_DEADLOCK FALSE
