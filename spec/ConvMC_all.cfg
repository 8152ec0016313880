SPECIFICATION Spec
CONSTANTS N = 5 Ms = {1, 2, 3} Ds = {1, 2, 3, 4} Vals = {0, 1, 3}
INVARIANTS Right Window Fits Maximal Corr Scales
CHECK_DEADLOCK FALSE
