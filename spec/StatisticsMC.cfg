SPECIFICATION MCSpec
CONSTANTS
    Values <- ValuesA
    N = 3
INVARIANTS Laws LawsC
CHECK_DEADLOCK FALSE
