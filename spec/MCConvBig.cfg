INIT Init
NEXT Next
CONSTANTS MaxN = 6
 MaxL = 4
INVARIANTS Direct Commute ByTransform
