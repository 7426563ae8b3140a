INIT Init
NEXT Next
CONSTANTS MaxN = 12
 MaxT = 60
INVARIANT Right
