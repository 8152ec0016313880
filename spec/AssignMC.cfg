SPECIFICATION Fair
CONSTANTS N = 3
  EXT = 3
  ROUNDS = 2
  MAPS = "small"
INVARIANTS Correct Clean OneWay Bounded
PROPERTY Completes
