CONSTANTS Nodes = {1, 2} Txs = {1, 2} Heights = 2 CacheBy = "txs" Writes = 1
SPECIFICATION Spec
INVARIANT Inv
PROPERTY OneStep
CHECK_DEADLOCK FALSE
