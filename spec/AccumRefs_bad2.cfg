SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Pieces = {1, 2}
  MaxCount = 2
  CopyDict = TRUE
  Replace = FALSE
INVARIANT Independent
CHECK_DEADLOCK FALSE
