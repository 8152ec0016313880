SPECIFICATION Spec
CONSTANTS B = 4 TOP = 4 MaxSub = 4 Draws_ = 9
INVARIANTS Documented BurnIsDraws LeapFrog
CHECK_DEADLOCK FALSE
