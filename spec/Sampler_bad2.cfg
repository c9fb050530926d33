SPECIFICATION Spec
CONSTANTS
  N = 2
  Grids = {11,12,22,23}
  MaxK = 6
  Variant = "skip_early"
INVARIANTS Distinct Uniform
CHECK_DEADLOCK FALSE
