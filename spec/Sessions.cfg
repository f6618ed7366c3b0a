SPECIFICATION Spec
INVARIANT Independent
PROPERTY Frame
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  Bursts = {1, 2, 4, 9}
  MaxBursts = 5
  OpLen = 3
  Emit = FALSE
