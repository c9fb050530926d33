INIT Init
NEXT Next
CONSTANTS N = 3 L = 3 NT = 2 MINS = 1 MAXS = 3 BS = 1 Auto = TRUE Locked = TRUE LeakDrop = FALSE
INVARIANT Exact
INVARIANT Progress
CHECK_DEADLOCK FALSE
