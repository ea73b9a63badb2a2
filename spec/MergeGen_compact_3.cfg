SPECIFICATION Spec
CONSTANTS Mode = "compact"
N = 3
CHECK_DEADLOCK FALSE
