SPECIFICATION Spec
CONSTANTS
  MaxWrites = 2
  MaxCalls = 2
  MaxHooks = 1
  Scen = FALSE
INVARIANTS Progress OneLineEach PassedAll HooksInOrder Accounted Delivered Known
CHECK_DEADLOCK FALSE
