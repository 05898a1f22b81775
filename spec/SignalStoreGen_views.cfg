SPECIFICATION GSpec
CONSTANTS
    Steps = 30
    MaxLen = 24
    Mode = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
