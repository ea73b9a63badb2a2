SPECIFICATION Spec
CONSTANT Mode = "lww"
INVARIANTS Converges Shape
CHECK_DEADLOCK FALSE
