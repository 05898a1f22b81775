SPECIFICATION GSpec
CONSTANTS
    Runs = 7
    MaxX = 14
    MaxH = 23
    MaxRate = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
