INIT Init
NEXT Next
CONSTANTS N = 4 L = 2 NT = 1 MINS = 1 MAXS = 3 BS = 1 Auto = FALSE Locked = TRUE LeakDrop = FALSE
INVARIANT Exact
INVARIANT Progress
CHECK_DEADLOCK FALSE
