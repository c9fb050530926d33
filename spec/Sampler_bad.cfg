SPECIFICATION Spec
CONSTANTS
  N = 2
  Grids = {11,12,31,22}
  MaxK = 6
  Variant = "short_draw"
INVARIANTS Distinct Uniform
CHECK_DEADLOCK FALSE
