SPECIFICATION Spec
CONSTANTS
  MaxRegs = 4
  MaxPuts = 1
  Emit = FALSE
INVARIANTS WellFormed Laws Shown
PROPERTY Frame
CHECK_DEADLOCK FALSE
