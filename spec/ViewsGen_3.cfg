CONSTANTS MaxSub = 2
          Gen = TRUE
          Nc = 1
CONSTANT Dims <- D3
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
