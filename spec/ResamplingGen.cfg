SPECIFICATION GSpec
CONSTANTS
    Runs = 6
    MaxX = 12
    MaxH = 17
    MaxPhases = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
