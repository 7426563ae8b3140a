INIT Init
NEXT Next
CONSTANTS Blk = 2
 Segs = 3
 LastLen = 1
 Steps = 4
 Scheme = 0
INVARIANT Refines
