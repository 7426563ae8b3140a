INIT Init
NEXT Next
CONSTANTS Blk = 2
 Segs = 3
 LastLen = 1
 Total = 8
 MinChunk = 2
 MaxChunk = 5
INVARIANT Refines
