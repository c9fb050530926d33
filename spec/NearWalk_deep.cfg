INIT Init
NEXT Next
CONSTANTS N = 4 LX = 4 LY = 0 MAXSEP = 5 Bad = ""
INVARIANT Covered
INVARIANT Exact
INVARIANT Splittable
CHECK_DEADLOCK FALSE
