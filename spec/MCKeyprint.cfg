SPECIFICATION Spec
CONSTANTS
  MaxChain = 3
  MaxItems = 3
  Emit = FALSE
INVARIANTS Sound Shown
CHECK_DEADLOCK FALSE
