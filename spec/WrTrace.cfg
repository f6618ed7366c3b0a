SPECIFICATION TraceSpec
VIEW TraceView
INVARIANT WTypeOk
CHECK_DEADLOCK FALSE
