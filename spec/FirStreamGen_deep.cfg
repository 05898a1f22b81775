SPECIFICATION GSpec
CONSTANTS
    Taps = {1, 2, 3, 4, 5}
    Lengths = {0, 1, 2, 3, 5}
    Methods = {0, 1}
    Blocks = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
