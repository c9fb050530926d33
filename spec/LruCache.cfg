SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Caps = {0, 1, 2, 3, 4}
INVARIANTS Bounded Once
PROPERTIES MostRecent
CHECK_DEADLOCK FALSE
