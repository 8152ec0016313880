SPECIFICATION MCSpec
CONSTANTS T = {"a", "b", "c"}
 MaxOps = 10
 APP = TRUE
 LOCKED = TRUE
INVARIANT Inv
INVARIANT CountRight
CHECK_DEADLOCK FALSE
