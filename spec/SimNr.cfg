SPECIFICATION Spec
CONSTANTS
  MaxFrames = 3
  MaxCalls = 4
  MaxHooks = 2
  Scen = TRUE
CHECK_DEADLOCK FALSE
