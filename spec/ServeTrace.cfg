SPECIFICATION SSpec
INVARIANT Shape
CHECK_DEADLOCK FALSE
