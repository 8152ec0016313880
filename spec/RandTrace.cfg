SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS B = 2048 TOP = 1024
