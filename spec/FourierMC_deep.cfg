SPECIFICATION MSpec
CONSTANTS
  Size = 4
  Vals <- V
  Sparse = {5, 7, 9, 11, 13, 16, 17, 30, 49}
INVARIANTS Inverts Symmetry ZeroBin Shifts
CHECK_DEADLOCK FALSE
