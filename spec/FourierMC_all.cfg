SPECIFICATION Spec
CONSTANTS MaxN = 6
 Vals = {0, 5}
INVARIANTS RoundTrip RealOk ZeroOk
CHECK_DEADLOCK FALSE
