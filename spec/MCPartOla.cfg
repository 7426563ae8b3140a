INIT Init
NEXT Next
CONSTANTS Blk = 2
 Segs = 3
 LastLen = 2
 Steps = 4
 Scheme = 1
INVARIANT Refines
