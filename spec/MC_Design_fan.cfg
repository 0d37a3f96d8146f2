CONSTANTS Scheme = "2DDWAVE" MaxX = 2 MaxY = 2 MaxZ = 0 Which = "fan"
INIT Init
NEXT Next
INVARIANTS Carries RealizedWhenFinished OnlyOpen AtLeast Counts
CHECK_DEADLOCK FALSE
