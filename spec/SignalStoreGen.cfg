SPECIFICATION GSpec
CONSTANTS
    Steps = 30
    MaxLen = 24
    Mode = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
