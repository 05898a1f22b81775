SPECIFICATION MSpec
CONSTANTS
  Levels <- SomeLevels
  MaxSize = 6
  Widths = {1, 2, 3}
INVARIANTS Regions Sides Symmetry Edges Skirts
CHECK_DEADLOCK FALSE
