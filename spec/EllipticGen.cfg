SPECIFICATION GSpec
CONSTANTS
  Steps = 20
INVARIANT Emit
CHECK_DEADLOCK FALSE
