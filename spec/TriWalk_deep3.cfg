INIT Init
NEXT Next
CONSTANTS N = 5 LX = 5 LY = 0 MINS = 2 MAXS = 4 UD = 3 MINU = 1 MAXU = 2 VD = 2 MINV = 0 MAXV = 2 Mode = "sas" Orders = {0, 1, 3} Bad = ""
INVARIANT DropsNothing
INVARIANT SplitsRight
INVARIANT ArrangedRight
INVARIANT FinalRight
CHECK_DEADLOCK FALSE
