SPECIFICATION Spec
CONSTANTS
  Elems <- ElemsQ
  MaxOps = 4
INVARIANTS Lineage Usable
CHECK_DEADLOCK FALSE
