SPECIFICATION Spec
CONSTANTS Mode = "compact"
N = 4
CHECK_DEADLOCK FALSE
