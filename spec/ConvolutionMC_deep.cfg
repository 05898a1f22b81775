SPECIFICATION MCSpec
CONSTANTS
    Values <- Values3
    MaxU = 4
    MaxV = 3
    Complex = FALSE
INVARIANTS TypeOK Laws
PROPERTY Frame
CHECK_DEADLOCK FALSE
