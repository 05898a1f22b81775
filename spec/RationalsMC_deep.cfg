SPECIFICATION MCSpec
CONSTANTS
    N = 5
    Steps = 2
INVARIANTS Laws Canonical
CHECK_DEADLOCK FALSE
