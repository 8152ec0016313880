SPECIFICATION Spec
CONSTANTS R = 2 C = 3 Vals = {0, 1, 2} Parts = 2
INVARIANTS SumRight EarlyExit MaxRight FirstRule
CHECK_DEADLOCK FALSE
