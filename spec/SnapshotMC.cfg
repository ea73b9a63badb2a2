CONSTANTS MaxChunks = 2
 MaxUploads = 3
 MaxBlocks = 4
INIT Init
NEXT Next
INVARIANTS Restorable Whole Newest Suffix TypeOK
CHECK_DEADLOCK FALSE
