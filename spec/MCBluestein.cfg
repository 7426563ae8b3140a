INIT Init
NEXT Next
CONSTANTS MaxN = 24
INVARIANTS IsDft NoWrap
CHECK_DEADLOCK FALSE
