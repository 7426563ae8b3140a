INIT Init
NEXT Next
CONSTANTS Cases <- AllCases
 Steps = 3
 Which = "add"
INVARIANT Refines
