SPECIFICATION Spec
CONSTANTS
  CapW = 3
  CapR = 3
  MaxOps = 5
  Emit = FALSE
  Greedy = FALSE
INVARIANTS Prompt Usable Whole
PROPERTY Arrives
CHECK_DEADLOCK FALSE
