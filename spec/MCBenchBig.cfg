INIT Init
NEXT Next
CONSTANTS Threads = 1
Reloads = TRUE
Guarded = TRUE
Waits = TRUE
MaxJobs = 7
Rates = {1, 2, 3}
INVARIANTS NothingLost AtHostRate
CHECK_DEADLOCK FALSE
