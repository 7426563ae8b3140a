INIT Init
NEXT Next
CONSTANTS Threads = 1
Reloads = TRUE
Guarded = TRUE
Waits = TRUE
MaxJobs = 4
Rates = {1, 2}
INVARIANTS NothingLost AtHostRate
CHECK_DEADLOCK FALSE
