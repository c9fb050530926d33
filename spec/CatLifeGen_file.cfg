INIT Init
NEXT GNext
CONSTANTS
  NObj = 3
  Files = TRUE
  Patched = TRUE
  SelectResets = TRUE
  Depth = 12
INVARIANT GOut
CHECK_DEADLOCK FALSE
