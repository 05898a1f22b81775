SPECIFICATION MSpec
CONSTANTS
  Levels <- DeepLevels
  MaxSize = 7
  Widths = {1, 2, 3, 5, 8}
INVARIANTS Regions Sides Symmetry Edges Skirts
CHECK_DEADLOCK FALSE
