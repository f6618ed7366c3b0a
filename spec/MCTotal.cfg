SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Emit = FALSE
INVARIANTS Shown
PROPERTY Ends
CHECK_DEADLOCK FALSE
