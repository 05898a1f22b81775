SPECIFICATION MCSpec
CONSTANTS
    Values <- Values3
    MaxU = 3
    MaxV = 2
    Complex = FALSE
INVARIANTS TypeOK Laws
PROPERTY Frame
CHECK_DEADLOCK FALSE
