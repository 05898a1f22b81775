SPECIFICATION TSpec
INVARIANT Complete
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
