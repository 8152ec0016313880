SPECIFICATION Spec
CONSTANTS Mem = 6 N = 3 Codes = {2, 17, 23, 25} Vals = {1, 2}
INVARIANTS Pointwise Frame
CHECK_DEADLOCK FALSE
