INIT Init
NEXT Next
INVARIANT Nearest
