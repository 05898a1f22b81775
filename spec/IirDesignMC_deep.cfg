SPECIFICATION MSpec
CONSTANTS
  Orders = {1, 2, 3, 4, 5, 6, 7, 8, 10}
  Edges = {4, 13, 21, 32, 43, 50, 60}
  Ripples = {1, 2, 3, 6, 10, 16}
  Points = 24
INVARIANTS
  AtEdges
  Bands
  Symmetric
  Mirrors
  Unique
  Refused
  Seen
  Done
CHECK_DEADLOCK FALSE
