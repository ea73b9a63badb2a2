INIT Init
NEXT Next
VIEW View
INVARIANT Say
CHECK_DEADLOCK FALSE
