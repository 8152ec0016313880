CONSTANTS MaxSub = 3
          Gen = TRUE
          Nc = 2
CONSTANT Dims <- D1
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
