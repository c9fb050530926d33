INIT GInit
NEXT GNext
CONSTANTS
  Objs = {1, 2}
  Files = {1, 2}
  Pieces = {1, 2}
  KeepsRandoms = FALSE
  Depth = 9
INVARIANT Out
CHECK_DEADLOCK FALSE
