SPECIFICATION MCSpec
CONSTANTS
    Values <- ValuesB
    N = 1
    Complex = TRUE
INVARIANTS Undo Sizes
PROPERTY Frame
CHECK_DEADLOCK FALSE
