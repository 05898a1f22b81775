SPECIFICATION Spec
CONSTANTS
  Dens = {1, 2, 3, 4, 5, 7, 8, 12, 16, 30, 37, 64, 100, 441, 1000}
  Tol = 24
INVARIANTS Trig Quotient Root Exponential ErrorFunction Known
CHECK_DEADLOCK FALSE
