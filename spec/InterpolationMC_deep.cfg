SPECIFICATION MCSpec
CONSTANTS
    Xs <- XsB
    Hs <- HsB
    Rates = {1, 2, 3, 4, 5}
    Lens = {0, 1, 2, 3, 5, 8}
INVARIANTS Same Laws MRunPossible
CHECK_DEADLOCK FALSE
