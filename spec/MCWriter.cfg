SPECIFICATION Spec
VIEW View
INVARIANTS Conform BufBounded Armed SameZ WTypeOk
PROPERTY WMonotone
CHECK_DEADLOCK FALSE
CONSTANTS
  C = 2
  MaxOps = 3
  MaxFaults = 1
  Sizes = {1, 3}
  Timeds = {TRUE, FALSE}
  HookNs = {0, 2}
  Show = FALSE
