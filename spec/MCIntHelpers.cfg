INIT Init
NEXT Next
INVARIANT Def
