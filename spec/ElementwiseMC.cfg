SPECIFICATION Spec
CONSTANTS Mem = 4 N = 2 Codes = {2, 17, 23, 25} Vals = {1, 2}
INVARIANTS Pointwise Frame
CHECK_DEADLOCK FALSE
