SPECIFICATION Spec
INVARIANT Shape
CHECK_DEADLOCK FALSE
