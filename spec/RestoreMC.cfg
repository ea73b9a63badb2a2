SPECIFICATION Spec
CONSTANTS Units = {1, 2}  Len = 4  Size = 3  Crashes = 2  Forgeries = 1
INVARIANTS Faithful InStep Exact
PROPERTIES Kept Copied
CHECK_DEADLOCK FALSE
