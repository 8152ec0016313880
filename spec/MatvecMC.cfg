CONSTANTS Elems <- ElemsQ
 MaxOps = 2
 Lim = 12
SPECIFICATION Spec
INVARIANTS TypeOK Identities
CHECK_DEADLOCK FALSE
