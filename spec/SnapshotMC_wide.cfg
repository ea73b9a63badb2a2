CONSTANTS MaxChunks = 3
 MaxUploads = 4
 MaxBlocks = 6
INIT Init
NEXT Next
INVARIANTS Restorable Whole Newest Suffix TypeOK
CHECK_DEADLOCK FALSE
