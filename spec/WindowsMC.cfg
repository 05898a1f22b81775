SPECIFICATION MSpec
CONSTANTS
  Len0 = 22
  Tol = 64
  Some = {1, 2, 5, 8}
INVARIANTS Symmetric Bounded Peaked Rising Edges
CHECK_DEADLOCK FALSE
