SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Pieces = {1, 2}
  MaxCount = 2
  CopyDict = TRUE
  Replace = TRUE
INVARIANT Independent
CHECK_DEADLOCK FALSE
