INIT GInit
NEXT GNext
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Caps = {0, 1, 2, 3, 4}
  Depth = 30
INVARIANT Out
CHECK_DEADLOCK FALSE
