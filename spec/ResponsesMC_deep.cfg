SPECIFICATION MSpec
CONSTANTS
  MaxTaps = 7
  Values <- DeepValues
  Tol = 16
  Shifts <- SomeShifts
INVARIANTS Frame Involutions Gains Symmetry Carriers Hilbert HilbertEven
CHECK_DEADLOCK FALSE
