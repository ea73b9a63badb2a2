SPECIFICATION Spec
CONSTANTS
  Blocks = 4
  Batch = 2
  Cap = 1
  Faults = 3
INVARIANTS Sane InOrder Awake Healed
CHECK_DEADLOCK FALSE
