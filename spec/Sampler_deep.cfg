SPECIFICATION Spec
CONSTANTS
  N = 3
  Grids = {11,12,22,13,51}
  MaxK = 7
  Variant = "code"
INVARIANTS Distinct Uniform
CHECK_DEADLOCK FALSE
