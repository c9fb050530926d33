INIT Init
NEXT Next
CONSTANTS N = 3 LX = 3 LY = 0 MAXSEP = 3 Bad = "half"
INVARIANT Covered
INVARIANT Exact
INVARIANT Splittable
CHECK_DEADLOCK FALSE
