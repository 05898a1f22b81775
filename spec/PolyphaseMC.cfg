SPECIFICATION MCSpec
CONSTANTS
    Values <- ValuesA
    MaxTaps = 5
    MaxPhases = 4
    Steps = 3
INVARIANTS Partition NormalLaw
PROPERTY Untouched
CHECK_DEADLOCK FALSE
