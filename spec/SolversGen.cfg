SPECIFICATION GSpec
CONSTANTS
  Steps = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
