INIT Init
NEXT Next
CONSTANTS N = 5 L = 9 MINS = 3 NB = 3 BS = 4 B = 2 Bad = ""
INVARIANT DropsNothing
INVARIANT WithinSlop
INVARIANT CanDivide
CHECK_DEADLOCK FALSE
