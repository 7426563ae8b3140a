INIT Init
NEXT Next
CONSTANTS MaxLen = 20
 MaxFrame = 9
 Word = 65536
INVARIANTS Count Inside Cover Exact
