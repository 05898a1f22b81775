SPECIFICATION MSpec
CONSTANTS
  Size = 3
  Vals <- V
  Sparse = {5, 9, 13, 16, 30}
INVARIANTS Inverts Symmetry ZeroBin Shifts
CHECK_DEADLOCK FALSE
