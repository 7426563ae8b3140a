INIT Init
NEXT Next
CONSTANTS
  Levels = {0, 9999}
  Weights = {0, 30}
  MaxLen = 2
  Vals = {0, 1}
INVARIANTS SampledIsHeard CountedOnce Monotone SlotsExist ImageAgrees UpAndDown SameRate BlocksAddUp LastWriteWins
CHECK_DEADLOCK FALSE
