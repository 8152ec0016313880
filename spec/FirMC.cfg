CONSTANTS MaxM = 4
          MaxN = 6
          MaxOps = 4
          Gen = FALSE
SPECIFICATION Spec
INVARIANTS Windowed Counts
CHECK_DEADLOCK FALSE
