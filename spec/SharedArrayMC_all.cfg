SPECIFICATION Spec2
CONSTANTS
 NP = 3
 N = 2
 L = 3
INVARIANTS Shared Own
