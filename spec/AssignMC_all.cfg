SPECIFICATION Spec
CONSTANTS N = 3
  EXT = 4
  ROUNDS = 2
  MAPS = "all"
INVARIANTS Correct Clean OneWay Bounded
