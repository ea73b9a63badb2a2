SPECIFICATION Spec
CONSTANTS NShards = 2
 Depth = 5
 Ver = 21
INVARIANTS Placed OneLive NoneBad Gated
PROPERTIES NotTwice Ordered LiveForward
CHECK_DEADLOCK FALSE
