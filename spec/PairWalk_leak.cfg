INIT Init
NEXT Next
CONSTANTS N = 3 L = 4 NT = 1 MINS = 1 MAXS = 3 BS = 1 Auto = TRUE Locked = TRUE LeakDrop = TRUE
INVARIANT Exact
INVARIANT Progress
CHECK_DEADLOCK FALSE
