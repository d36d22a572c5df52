SPECIFICATION SSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
