SPECIFICATION MCSpec
CONSTANTS
    Values <- ValuesA
    N = 2
    Complex = FALSE
INVARIANTS Undo Sizes
PROPERTY Frame
CHECK_DEADLOCK FALSE
