SPECIFICATION Spec
CONSTANTS Mode = "lww"
N = 4
CHECK_DEADLOCK FALSE
