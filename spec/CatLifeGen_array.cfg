INIT Init
NEXT GNext
CONSTANTS
  NObj = 3
  Files = FALSE
  Patched = TRUE
  SelectResets = TRUE
  Depth = 12
INVARIANT GOut
CHECK_DEADLOCK FALSE
