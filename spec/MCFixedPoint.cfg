CONSTANTS MaxW = 5 MaxLen = 2
INIT Init
NEXT Next
INVARIANTS InRange Laws RoundTrip Conv
CHECK_DEADLOCK FALSE
