SPECIFICATION Spec
CONSTANTS
  Emit = FALSE
  Few = TRUE
INVARIANTS Unambiguous Specified Idempotent Dispatch Apart Default Slashes Shown
CHECK_DEADLOCK FALSE
