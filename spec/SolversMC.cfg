SPECIFICATION MSpec
CONSTANTS
  Places = {0, 3, 4, 9, 14, 16}
  Degree = 3
  Finest = 3
INVARIANTS
  Bracketed
  Found
  OneSide
  Solved
  Discriminates
CHECK_DEADLOCK FALSE
