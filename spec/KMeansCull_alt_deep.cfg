INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Nearest
INVARIANT Kept
CONSTANTS
 N = 3
 L = 2
 K = 3
 Alt = TRUE
 Pen = {0, 3, 8}
 Greedy = FALSE
