SPECIFICATION Spec
INVARIANT RoundTrip OrderFree
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSet = 2
  MaxParts = 3
  Emit = FALSE
