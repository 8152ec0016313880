SPECIFICATION Spec
CONSTANTS MaxN = 4
 Vals = {0, 3}
INVARIANTS RoundTrip RealOk ZeroOk
CHECK_DEADLOCK FALSE
