SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
