SPECIFICATION Spec
CONSTANTS N = 4 Ms = {1, 2} Ds = {1, 2, 3} Vals = {0, 2}
INVARIANTS Right Window Fits Maximal Corr Scales
CHECK_DEADLOCK FALSE
