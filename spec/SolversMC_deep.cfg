SPECIFICATION MSpec
CONSTANTS
  Places = {0, 1, 3, 4, 9, 14, 16, 29, 40}
  Degree = 5
  Finest = 5
INVARIANTS
  Bracketed
  Found
  OneSide
  Solved
  Discriminates
CHECK_DEADLOCK FALSE
