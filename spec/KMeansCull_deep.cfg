INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Nearest
INVARIANT Kept
CONSTANTS
 N = 3
 L = 3
 K = 3
 Alt = FALSE
 Pen = {0}
 Greedy = FALSE
