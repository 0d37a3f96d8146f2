CONSTANTS Scheme = "2DDWAVE" MaxX = 2 MaxY = 1 MaxZ = 0 Which = "and"
INIT Init
NEXT Next
INVARIANTS Carries RealizedWhenFinished OnlyOpen AtLeast Counts
CHECK_DEADLOCK FALSE
