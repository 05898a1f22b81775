SPECIFICATION MCSpec
CONSTANTS
    Xs <- XsB
    Hs <- HsB
    Phases = {1, 2, 3, 4}
    Ratios <- RatiosB
    Starts <- StartsB
    Lens = {0, 1, 2, 3, 5}
INVARIANTS Accepted Laws
CHECK_DEADLOCK FALSE
