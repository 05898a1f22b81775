SPECIFICATION MSpec
CONSTANTS
  Sizes = {1, 3, 5, 7, 9, 11, 15, 19, 27, 31}
  Edges = {4, 8, 16, 21, 32, 40, 50, 57}
  Windows0 = {"rectangular", "hamming", "kaiser", "blackman", "triangular", "lanczos", "gaussian"}
  Grids = {0, 17, 20, 33, 36}
INVARIANTS
  Gains
  Halves
  Sampling
  Hilberts
  Squares
  Seen
CHECK_DEADLOCK FALSE
