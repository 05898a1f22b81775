SPECIFICATION MSpec
CONSTANTS
  MaxSteps = 5
  Some = 150000
INVARIANTS LastWins Valid DefaultsValid
CHECK_DEADLOCK FALSE
