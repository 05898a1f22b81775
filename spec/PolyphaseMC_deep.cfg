SPECIFICATION MCSpec
CONSTANTS
    Values <- ValuesA
    MaxTaps = 6
    MaxPhases = 4
    Steps = 4
INVARIANTS Partition NormalLaw
PROPERTY Untouched
CHECK_DEADLOCK FALSE
