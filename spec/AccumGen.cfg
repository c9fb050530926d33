INIT GInit
NEXT GNext
CONSTANTS
  Objs = {1, 2, 3}
  Pieces = {1, 2, 3}
  MaxCount = 6
  Depth = 12
  CopyHeavy = FALSE
INVARIANT Out
CHECK_DEADLOCK FALSE
