INIT Init
NEXT Next
CONSTANTS Cases <- AllCases
 Steps = 4
 Which = "save"
INVARIANT Refines
