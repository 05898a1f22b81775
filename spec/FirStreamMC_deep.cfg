SPECIFICATION MCSpec
CONSTANTS
    Values <- Values3
    MaxTaps = 3
    MaxBlock = 3
    MaxTotal = 5
INVARIANTS TypeOK CutInvariance StateIsLastInputs
CHECK_DEADLOCK FALSE
