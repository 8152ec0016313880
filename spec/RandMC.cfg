SPECIFICATION Spec
CONSTANTS B = 4 TOP = 4 MaxSub = 3 Draws_ = 8
INVARIANTS Documented BurnIsDraws LeapFrog
CHECK_DEADLOCK FALSE
