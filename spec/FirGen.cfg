CONSTANTS MaxM = 4
          MaxN = 6
          MaxOps = 4
          Gen = TRUE
SPECIFICATION Spec
INVARIANTS Windowed Counts Emit
CHECK_DEADLOCK FALSE
