SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Files = {1, 2}
  Pieces = {1, 2}
  KeepsRandoms = TRUE
INVARIANT Recoverable
