CONSTANTS MaxW = 6 MaxLen = 3
INIT Init
NEXT Next
INVARIANTS InRange Laws RoundTrip Conv
CHECK_DEADLOCK FALSE
