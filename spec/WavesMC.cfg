SPECIFICATION MSpec
CONSTANTS
  Rates = {1, 4, 7}
  Freqs <- F
  Phases <- Q
  Parts = {0, 1, 2, 3, 4}
  Last0 = 9
INVARIANTS Bounded Periodic Same Triangle Duty Flat Mean Guarded Spaces
CHECK_DEADLOCK FALSE
