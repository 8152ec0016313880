CONSTANTS MaxSub = 2
          Gen = FALSE
          Nc = 1
CONSTANT Dims <- D3
SPECIFICATION Spec
INVARIANTS Wellformed Coherent
PROPERTY WriteLocal
CHECK_DEADLOCK FALSE
