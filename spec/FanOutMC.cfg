SPECIFICATION Spec
CONSTANTS
  Blocks = 3
  Batch = 2
  Cap = 1
  Faults = 2
INVARIANTS Sane InOrder Awake Healed
CHECK_DEADLOCK FALSE
