SPECIFICATION Spec
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
CONSTANTS
  Charset_ = "utf8"
  Emit = FALSE
