SPECIFICATION Spec
CONSTANTS NShards = 2
 Depth = 7
 Ver = 15
INVARIANTS Placed OneLive NoneBad Gated
PROPERTIES NotTwice Ordered LiveForward
CHECK_DEADLOCK FALSE
