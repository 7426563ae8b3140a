CONSTANT R = 3
INIT Init
NEXT Next
INVARIANT Laws
