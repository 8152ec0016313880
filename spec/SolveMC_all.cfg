SPECIFICATION Spec
CONSTANTS
  Elems <- ElemsA
  MaxOps = 6
INVARIANTS Lineage Usable
CHECK_DEADLOCK FALSE
