SPECIFICATION Spec
CONSTANTS
  MaxFrames = 1
  MaxCalls = 2
  MaxHooks = 1
  Scen = FALSE
INVARIANTS Progress HookOrder Accounted Delivered EncodingKept EncOnce NeverUnspecified
CHECK_DEADLOCK FALSE
