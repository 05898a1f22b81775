SPECIFICATION GSpec
CONSTANTS
  Steps = 16
  Kinds = 26
  Variants = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
