SPECIFICATION Spec
CONSTANTS Wide = FALSE
CHECK_DEADLOCK FALSE
