SPECIFICATION MCSpec
CONSTANTS
    N = 3
    Steps = 1
INVARIANTS Laws Canonical
CHECK_DEADLOCK FALSE
