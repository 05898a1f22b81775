SPECIFICATION GSpec
CONSTANT Steps = 22
INVARIANT Emit
CHECK_DEADLOCK FALSE
