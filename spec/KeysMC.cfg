SPECIFICATION Spec
CONSTANTS Depth = 4
 Ttl = 1
INVARIANTS OneOwner InStep
PROPERTIES Once NonceForward Timely ActsOnlyActive Lasting
CHECK_DEADLOCK FALSE
