INIT Init
NEXT Next
CONSTANTS Rows = 3
          Cols = 2
          MaxInserts = 5
INVARIANT Refines
CHECK_DEADLOCK FALSE
