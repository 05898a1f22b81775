SPECIFICATION MCSpec
CONSTANT N = 4
INVARIANT Laws
PROPERTY Stays
CHECK_DEADLOCK FALSE
