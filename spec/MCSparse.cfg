INIT Init
NEXT Next
CONSTANTS Blk1 = 2
 Segs = 3
 Steps = 4
INVARIANTS Linear Parts
