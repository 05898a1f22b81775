SPECIFICATION MCSpec
CONSTANT N = 2
INVARIANT Laws
PROPERTY Stays
CHECK_DEADLOCK FALSE
