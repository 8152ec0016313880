CONSTANTS MaxM = 6
          MaxN = 9
          MaxOps = 6
          Gen = FALSE
SPECIFICATION Spec
INVARIANTS Windowed Counts
CHECK_DEADLOCK FALSE
