SPECIFICATION Spec
CONSTANTS
  SidStep = 211
  Emit = FALSE
INVARIANTS Sids Shorts Whole Shown
CHECK_DEADLOCK FALSE
