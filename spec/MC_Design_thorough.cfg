CONSTANTS Scheme = "USE" MaxX = 2 MaxY = 2 MaxZ = 0 Which = "lt"
INIT Init
NEXT Next
INVARIANTS Carries RealizedWhenFinished OnlyOpen AtLeast Counts
CHECK_DEADLOCK FALSE
