INIT Init
NEXT Next
CONSTANTS Cases <- AllCases
 Steps = 4
 Which = "add"
INVARIANT Refines
