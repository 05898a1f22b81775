SPECIFICATION MSpec
CONSTANTS
  Rates = {1, 4, 7, 8}
  Freqs <- F
  Phases <- Q
  Parts = {0, 1, 2, 3, 4}
  Last0 = 16
INVARIANTS Bounded Periodic Same Triangle Duty Flat Mean Guarded Spaces
CHECK_DEADLOCK FALSE
