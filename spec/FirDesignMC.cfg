SPECIFICATION MSpec
CONSTANTS
  Sizes = {1, 3, 7, 9}
  Edges = {8, 21, 32, 50}
  Windows0 = {"rectangular", "hamming", "kaiser"}
  Grids = {0, 17, 20}
INVARIANTS
  Gains
  Halves
  Sampling
  Hilberts
  Squares
  Seen
CHECK_DEADLOCK FALSE
