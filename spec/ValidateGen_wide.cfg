SPECIFICATION Spec
CONSTANTS Wide = TRUE
CHECK_DEADLOCK FALSE
