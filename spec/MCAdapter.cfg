SPECIFICATION Spec
CONSTANTS MaxOrder = 3
 MaxBlock = 9
 MaxSamples = 26
 ClearOnPrepare = TRUE
INVARIANT Law
CHECK_DEADLOCK FALSE
