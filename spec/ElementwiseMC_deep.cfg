SPECIFICATION MCSpec
CONSTANTS
    Values <- ValuesB
    N = 2
    Complex = TRUE
INVARIANTS Undo Sizes
PROPERTY Frame
CHECK_DEADLOCK FALSE
