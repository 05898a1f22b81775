SPECIFICATION MSpec
CONSTANTS
  MaxSteps = 3
  Some = 150000
INVARIANTS LastWins Valid DefaultsValid
CHECK_DEADLOCK FALSE
