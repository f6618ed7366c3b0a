SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  C = 2
  MaxOps = 7
  MaxFaults = 1
  Sizes = {1, 3}
  Timeds = {TRUE, FALSE}
  HookNs = {0, 2}
  Show = TRUE
