CONSTANTS Focus = "stream" Wide = TRUE
SPECIFICATION Spec
INVARIANT Inv
PROPERTY NewestName
CHECK_DEADLOCK FALSE
