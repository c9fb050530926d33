SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Files = {1, 2}
  Pieces = {1, 2}
  KeepsRandoms = FALSE
INVARIANT Recoverable
