INIT Init
NEXT Next
CONSTANTS MaxN = 4
 MaxL = 4
INVARIANTS Direct Commute ByTransform
