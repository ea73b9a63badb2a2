SPECIFICATION Spec
CONSTANTS Units = {1, 2, 3}  Len = 6  Size = 2  Crashes = 2  Forgeries = 2
INVARIANTS Faithful InStep Exact
PROPERTIES Kept Copied
CHECK_DEADLOCK FALSE
