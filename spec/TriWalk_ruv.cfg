INIT Init
NEXT Next
CONSTANTS N = 4 LX = 4 LY = 0 MINS = 1 MAXS = 3 UD = 3 MINU = 1 MAXU = 2 VD = 2 MINV = 0 MAXV = 2 Mode = "ruv" Orders = {0, 1, 3} Bad = ""
INVARIANT DropsNothing
INVARIANT SplitsRight
INVARIANT ArrangedRight
INVARIANT FinalRight
CHECK_DEADLOCK FALSE
