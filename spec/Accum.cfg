SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Pieces = {1, 2}
  MaxCount = 2
INVARIANT Consistent
CHECK_DEADLOCK FALSE
