SPECIFICATION MCSpec
CONSTANTS
    MaxLen = 2
    Values = {0, 1}
    Vs = {1}
INVARIANTS InRange ExtractLaw
PROPERTY WritesOne
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
