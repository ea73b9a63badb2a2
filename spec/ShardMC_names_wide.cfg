CONSTANTS Focus = "names" Wide = TRUE
SPECIFICATION Spec
INVARIANT Inv
PROPERTY NewestName
CHECK_DEADLOCK FALSE
