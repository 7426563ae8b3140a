INIT Init
NEXT Next
CONSTANTS Blk = 2
 Segs = 2
 LastLen = 2
 Steps = 5
 Scheme = 0
INVARIANT Refines
