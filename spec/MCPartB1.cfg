INIT Init
NEXT Next
CONSTANTS Blk = 1
 Segs = 4
 LastLen = 1
 Steps = 7
 Scheme = 0
INVARIANT Refines
