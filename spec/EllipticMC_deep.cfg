SPECIFICATION MSpec
CONSTANTS
  Moduli = {0, 1, 2, 4, 8, 12, 16, 24, 32, 40, 48, 53, 58, 60, 62, 63, 64}
  Points = 13
  Grid = 4
  Tol = 400
INVARIANTS
  Addition
  Squares
  Odd
  Periodic
  Inverse
  Complex
  Carlsons
  Exact
CHECK_DEADLOCK FALSE
