SPECIFICATION MSpec
CONSTANTS
  MaxTaps = 5
  Values <- SmallValues
  Tol = 16
  Shifts <- SomeShifts
INVARIANTS Frame Involutions Gains Symmetry Carriers Hilbert HilbertEven
CHECK_DEADLOCK FALSE
