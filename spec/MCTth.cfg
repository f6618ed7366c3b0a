SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  MaxStutter = 1
  Bs = 2
  MaxLeaves = 70
  Emit = FALSE
INVARIANTS LeavesRight RootRight AllRead Shown

CHECK_DEADLOCK FALSE
PROPERTY Ends
