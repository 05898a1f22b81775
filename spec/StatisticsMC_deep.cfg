SPECIFICATION MCSpec
CONSTANTS
    Values <- ValuesB
    N = 4
INVARIANTS Laws LawsC
CHECK_DEADLOCK FALSE
