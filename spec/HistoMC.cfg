SPECIFICATION Spec
CONSTANTS MaxV = 3 MaxN = 5 MaxLen = 2 MaxCalls = 2
INVARIANTS OneBin Sum Counts Monotone
CHECK_DEADLOCK FALSE
