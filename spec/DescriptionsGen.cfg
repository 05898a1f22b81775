SPECIFICATION GSpec
CONSTANTS
  Steps = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
