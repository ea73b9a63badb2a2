CONSTANTS Nodes = {1} Txs = {1, 2} Heights = 3 CacheBy = "txs" Writes = 1
SPECIFICATION Spec
INVARIANT Inv
PROPERTY OneStep
CHECK_DEADLOCK FALSE
