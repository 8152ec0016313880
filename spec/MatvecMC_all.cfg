CONSTANTS Elems <- ElemsA
 MaxOps = 3
 Lim = 12
SPECIFICATION Spec
INVARIANTS TypeOK Identities
CHECK_DEADLOCK FALSE
