INIT Init
NEXT Next
CONSTANTS
  NObj = 2
  Files = FALSE
  Patched = TRUE
  SelectResets = FALSE
INVARIANTS Invisible Faithful
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
