SPECIFICATION MCSpec
CONSTANTS
    Xs <- XsA
    Hs <- HsA
    Phases = {1, 2, 3}
    Ratios <- RatiosA
    Starts <- StartsA
    Lens = {0, 1, 2, 4}
INVARIANTS Accepted Laws
CHECK_DEADLOCK FALSE
