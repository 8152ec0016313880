SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxOps = 4
INVARIANTS Conserved RowCol EvenTwice DcMiddle
CHECK_DEADLOCK FALSE
