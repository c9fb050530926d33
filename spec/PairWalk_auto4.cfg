INIT Init
NEXT Next
CONSTANTS N = 4 L = 4 NT = 1 MINS = 1 MAXS = 4 BS = 2 Auto = TRUE Locked = TRUE LeakDrop = FALSE
INVARIANT Exact
INVARIANT Progress
CHECK_DEADLOCK FALSE
