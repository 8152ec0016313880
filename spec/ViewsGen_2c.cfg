CONSTANTS MaxSub = 2
          Gen = TRUE
          Nc = 2
CONSTANT Dims <- D2s
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
