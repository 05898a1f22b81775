SPECIFICATION GSpec
CONSTANTS
  Steps = 5
  MaxOrder = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
