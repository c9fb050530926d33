INIT Init
NEXT Next
CONSTANTS N = 4 L = 6 MINS = 2 NB = 2 BS = 4 B = 0 Bad = ""
INVARIANT DropsNothing
INVARIANT WithinSlop
INVARIANT CanDivide
CHECK_DEADLOCK FALSE
