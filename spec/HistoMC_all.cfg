SPECIFICATION Spec
CONSTANTS MaxV = 5 MaxN = 6 MaxLen = 2 MaxCalls = 2
INVARIANTS OneBin Sum Counts Monotone
CHECK_DEADLOCK FALSE
