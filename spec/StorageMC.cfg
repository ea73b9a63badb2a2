SPECIFICATION Spec
CONSTANTS Accounts = {1, 2}
 Depth = 5
 Ver = 21
 Net = "devnet"
INVARIANTS Conserved Bounded NonNegative OneHome Ends NoSublet Lapses
PROPERTIES Keeps TakesBack Forward
CHECK_DEADLOCK FALSE
