CONSTANTS Scheme = "2DDWAVE" MaxX = 2 MaxY = 1 MaxZ = 1 Which = "swap"
INIT Init
NEXT Next
INVARIANTS Carries RealizedWhenFinished OnlyOpen AtLeast Counts
CHECK_DEADLOCK FALSE
