SPECIFICATION MSpec
CONSTANTS
  Moduli = {0, 1, 16, 53, 64}
  Points = 7
  Grid = 4
  Tol = 400
INVARIANTS
  Addition
  Squares
  Odd
  Periodic
  Inverse
  Complex
  Carlsons
  Exact
CHECK_DEADLOCK FALSE
