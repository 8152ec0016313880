SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxRoots = 2
  MaxHandles = 4
INVARIANTS Once Safe Implements Counts
CHECK_DEADLOCK FALSE
