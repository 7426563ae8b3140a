INIT Init
NEXT Next
CONSTANTS Length = 16
 MaxSegments = 5
CHECK_DEADLOCK FALSE
