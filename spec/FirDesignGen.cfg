SPECIFICATION GSpec
CONSTANTS
  Steps = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
