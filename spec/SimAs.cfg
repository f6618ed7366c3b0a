SPECIFICATION Spec
CONSTANTS
  MaxWrites = 6
  MaxCalls = 6
  MaxHooks = 2
  Scen = TRUE
CHECK_DEADLOCK FALSE
