SPECIFICATION Spec
CONSTANTS
  Emit = FALSE
  Groups = {0, 1, 2, 4, 8, 16, 32, 63, 33, 62, 64}
INVARIANTS GroupLaws StatusLaws NormLaws Shown
CHECK_DEADLOCK FALSE
