SPECIFICATION TraceSpec
VIEW TraceView
CONSTANT Slack <- ReadBuf
CHECK_DEADLOCK FALSE
