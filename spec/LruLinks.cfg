SPECIFICATION LSpec
CONSTANTS
  Keys = {1, 2, 3, 4}
  Caps = {0, 1, 2, 3}
  Nodes = {1, 2, 3, 4, 5, 6, 7}
INVARIANTS RingOK
PROPERTIES Refines
CHECK_DEADLOCK FALSE
