SPECIFICATION GSpec
CONSTANTS
    Steps = 14
    MaxTaps = 17
    MaxPhases = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
