SPECIFICATION Spec
CONSTANTS MaxOrder = 4
 MaxBlock = 18
 MaxSamples = 70
 ClearOnPrepare = TRUE
INVARIANT Law
CHECK_DEADLOCK FALSE
