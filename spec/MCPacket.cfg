SPECIFICATION Spec
INVARIANT RoundTrip SameAgain
CHECK_DEADLOCK FALSE
CONSTANTS
  Sids = 1
  MaxSel = 1
  Emit = FALSE
