INIT Init
NEXT Next
CONSTANTS
  B = 2
  MaxLen = 3
  Vals = {1, 2}
INVARIANTS Refines NoStoredZeros
PROPERTIES OnlyOutput FailedRunsChangeNothing
CHECK_DEADLOCK FALSE
