SPECIFICATION MCSpec
CONSTANTS
    Values <- Values2
    MaxTaps = 4
    MaxBlock = 3
    MaxTotal = 5
INVARIANTS TypeOK CutInvariance StateIsLastInputs
CHECK_DEADLOCK FALSE
