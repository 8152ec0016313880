SPECIFICATION TSpec
INVARIANTS TravOnce TravInOrder TravComplete
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
