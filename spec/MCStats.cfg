INIT Init
NEXT Next
CONSTANTS N = 4
INVARIANTS Agree Laws
CHECK_DEADLOCK FALSE
