INIT Init
NEXT Next
CONSTANTS MaxN = 32
INVARIANTS Hermitian Makhoul HalfSize
CHECK_DEADLOCK FALSE
