SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Slack = 2
  C = 2
  Streams <- MCStreams
  Lims = {0, 1, 2, 3}
  MaxOps = 8
  Tmps = 2
  Show = TRUE
