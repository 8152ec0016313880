SPECIFICATION Spec2
CONSTANTS
 NP = 2
 N = 2
 L = 3
INVARIANTS Shared Own
