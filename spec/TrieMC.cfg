SPECIFICATION Spec
CONSTANTS
  Keys <- MCKeys
  Deep = 1
  Batch = 1
INVARIANTS PendingIsCanonical DiskIsCanonical
CHECK_DEADLOCK FALSE
