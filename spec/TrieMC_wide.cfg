SPECIFICATION Spec
CONSTANTS
  Keys <- MCWide
  Deep = 2
  Batch = 2
INVARIANTS PendingIsCanonical DiskIsCanonical
CHECK_DEADLOCK FALSE
