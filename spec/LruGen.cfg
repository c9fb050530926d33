INIT GInit
NEXT GNext
CONSTANTS
  Keys = {1, 2, 3}
  Caps = {0, 1, 2, 3}
  Depth = 5
INVARIANT Out
CHECK_DEADLOCK FALSE
