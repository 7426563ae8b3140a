INIT Init
NEXT Next
INVARIANTS InRange Commutes AddLaw
