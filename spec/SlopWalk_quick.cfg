INIT Init
NEXT Next
CONSTANTS N = 4 L = 7 MINS = 2 NB = 3 BS = 3 B = 1 Bad = ""
INVARIANT DropsNothing
INVARIANT WithinSlop
INVARIANT CanDivide
CHECK_DEADLOCK FALSE
