INIT Init
NEXT Next
CONSTANTS
 Depth = 4
 Ids = {"1","2","3","4"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
