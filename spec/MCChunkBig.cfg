INIT Init
NEXT Next
CONSTANTS Blk = 3
 Segs = 2
 LastLen = 3
 Total = 10
 MinChunk = 3
 MaxChunk = 7
INVARIANT Refines
