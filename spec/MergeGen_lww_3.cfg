SPECIFICATION Spec
CONSTANTS Mode = "lww"
N = 3
CHECK_DEADLOCK FALSE
