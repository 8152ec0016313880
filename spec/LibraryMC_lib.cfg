SPECIFICATION MCSpec
CONSTANTS T = {"a", "b", "c"}
 MaxOps = 7
 APP = FALSE
 LOCKED = TRUE
INVARIANT Inv
INVARIANT CountRight
CHECK_DEADLOCK FALSE
