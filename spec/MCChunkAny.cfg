INIT Init
NEXT Next
CONSTANTS Blk = 2
 Segs = 2
 LastLen = 2
 Total = 8
 MinChunk = 1
 MaxChunk = 5
INVARIANT Refines
