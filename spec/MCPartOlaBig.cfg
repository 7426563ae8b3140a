INIT Init
NEXT Next
CONSTANTS Blk = 2
 Segs = 2
 LastLen = 1
 Steps = 5
 Scheme = 1
INVARIANT Refines
