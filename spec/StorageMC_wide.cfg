SPECIFICATION Spec
CONSTANTS Accounts = {1, 2}
 Depth = 6
 Ver = 15
 Net = "mainnet"
INVARIANTS Conserved Bounded NonNegative OneHome Ends NoSublet Lapses
PROPERTIES Keeps TakesBack Forward
CHECK_DEADLOCK FALSE
