SPECIFICATION GSpec
CONSTANT Steps = 18
INVARIANT Emit
CHECK_DEADLOCK FALSE
