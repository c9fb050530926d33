INIT Init
NEXT Next
CONSTANTS N = 3 LX = 2 LY = 2 MAXSEP = 4 Bad = ""
INVARIANT Covered
INVARIANT Exact
INVARIANT Splittable
CHECK_DEADLOCK FALSE
