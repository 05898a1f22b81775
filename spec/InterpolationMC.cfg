SPECIFICATION MCSpec
CONSTANTS
    Xs <- XsA
    Hs <- HsA
    Rates = {1, 2, 3}
    Lens = {0, 1, 2, 5, 7}
INVARIANTS Same Laws MRunPossible
CHECK_DEADLOCK FALSE
