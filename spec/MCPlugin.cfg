INIT MInit
NEXT MNext
CONSTANTS Slots = {0, 1}
Levels = {0, 2}
Flushes = TRUE
INVARIANTS Faithful Mix
CHECK_DEADLOCK FALSE
