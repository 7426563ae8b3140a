INIT Init
NEXT Next
CONSTANTS MaxSize = 256
INVARIANTS Counter Sorted Involution
CHECK_DEADLOCK FALSE
