SPECIFICATION Spec
CONSTANTS Depth = 6
 Ttl = 1
INVARIANTS OneOwner InStep
PROPERTIES Once NonceForward Timely ActsOnlyActive Lasting
CHECK_DEADLOCK FALSE
