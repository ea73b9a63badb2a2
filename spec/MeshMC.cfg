INIT Init
NEXT Next
CONSTANTS
 Depth = 2
 Ids = {"1","2","3"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
