SPECIFICATION Spec
CONSTANTS
  N = 2
  Grids = {11,12,31,22,23}
  MaxK = 6
  Variant = "code"
INVARIANTS Distinct Uniform
CHECK_DEADLOCK FALSE
