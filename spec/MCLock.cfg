SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Emit = FALSE
INVARIANTS Free Answers Short Shown
CHECK_DEADLOCK FALSE
