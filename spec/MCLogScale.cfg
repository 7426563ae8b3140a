CONSTANT N = 1500
INIT Init
NEXT Next
INVARIANT Laws
