SPECIFICATION Spec
CONSTANTS
  MaxBatches = 1
  MaxBatch = 2
  MaxHooks = 1
  Scen = FALSE
INVARIANTS OneFrameEach PassedAll HooksInOrder PeerPrefix PeerAll PeerNoErrors Known
CHECK_DEADLOCK FALSE
