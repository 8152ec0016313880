SPECIFICATION Spec
CONSTANTS MaxN = 6 MaxOps = 5
INVARIANTS Conserved RowCol EvenTwice DcMiddle
CHECK_DEADLOCK FALSE
