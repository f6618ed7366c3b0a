SPECIFICATION Spec
INVARIANT Sound Sharp Small
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSets = 3
  MaxMsgs = 3
