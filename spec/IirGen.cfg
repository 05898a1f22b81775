SPECIFICATION GSpec
CONSTANTS
    Steps = 24
    Lengths = {0, 1, 2, 3, 7}
INVARIANT Emit
CHECK_DEADLOCK FALSE
