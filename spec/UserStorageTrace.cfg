SPECIFICATION TSpec
INVARIANTS LayoutInjective ValShape ReleasedUnknown
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
