CONSTANT Wide = FALSE
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Forward
CHECK_DEADLOCK FALSE
