CONSTANTS MaxSub = 3
          Gen = FALSE
          Nc = 2
CONSTANT Dims <- D1
SPECIFICATION Spec
INVARIANTS Wellformed Coherent
PROPERTY WriteLocal
CHECK_DEADLOCK FALSE
