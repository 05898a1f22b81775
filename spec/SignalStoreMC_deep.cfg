SPECIFICATION MCSpec
CONSTANTS
    MaxLen = 3
    Values = {1, 2}
    Vs = {1, 2}
INVARIANTS InRange ExtractLaw
PROPERTY WritesOne
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
