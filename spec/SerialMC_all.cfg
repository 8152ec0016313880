SPECIFICATION Spec
CONSTANTS
  MaxSize = 4
  MaxStride = 16
INVARIANTS Sound Complete Other
CHECK_DEADLOCK FALSE
