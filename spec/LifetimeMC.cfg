SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxRoots = 2
  MaxHandles = 3
INVARIANTS Once Safe Implements Counts
CHECK_DEADLOCK FALSE
