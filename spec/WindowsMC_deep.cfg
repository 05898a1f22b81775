SPECIFICATION MSpec
CONSTANTS
  Len0 = 60
  Tol = 64
  Some = {1, 2, 3, 13, 14, 41}
INVARIANTS Symmetric Bounded Peaked Rising Edges
CHECK_DEADLOCK FALSE
