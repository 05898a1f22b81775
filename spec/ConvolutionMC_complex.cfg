SPECIFICATION MCSpec
CONSTANTS
    Values <- Values2
    MaxU = 2
    MaxV = 2
    Complex = TRUE
INVARIANTS TypeOK Laws
PROPERTY Frame
CHECK_DEADLOCK FALSE
