SPECIFICATION Spec
CONSTANT Mode = "compact"
INVARIANTS Converges Shape
PROPERTIES Monotone OtherTypes
CHECK_DEADLOCK FALSE
