SPECIFICATION Spec
VIEW View
PROPERTY Conform
INVARIANT BufsBounded
CHECK_DEADLOCK FALSE
CONSTANTS
  Slack = 2
  C = 2
  Streams <- MCStreams
  Lims = {0, 2}
  MaxOps = 4
  Tmps = 1
  Show = FALSE
