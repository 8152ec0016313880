SPECIFICATION Spec
CONSTANTS
  MaxSize = 3
  MaxStride = 4
INVARIANTS Sound Complete Other
CHECK_DEADLOCK FALSE
