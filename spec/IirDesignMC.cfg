SPECIFICATION MSpec
CONSTANTS
  Orders = {1, 2, 3, 4, 6, 7}
  Edges = {8, 21, 32, 50}
  Ripples = {1, 6, 16}
  Points = 12
INVARIANTS
  AtEdges
  Bands
  Symmetric
  Mirrors
  Unique
  Refused
  Seen
  Done
CHECK_DEADLOCK FALSE
