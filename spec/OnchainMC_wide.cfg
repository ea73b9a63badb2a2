CONSTANT Wide = TRUE
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Forward
CHECK_DEADLOCK FALSE
