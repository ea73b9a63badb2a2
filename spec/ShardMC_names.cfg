CONSTANTS Focus = "names" Wide = FALSE
SPECIFICATION Spec
INVARIANT Inv
PROPERTY NewestName
CHECK_DEADLOCK FALSE
