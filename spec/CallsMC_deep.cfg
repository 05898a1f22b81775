SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2, 3}
  Lengths = {5, 6, 7, 8}
  Slots = 2
INVARIANTS AllAlive RightPlan OnePerLength Bounded
PROPERTY Refines
VIEW View
CHECK_DEADLOCK FALSE
