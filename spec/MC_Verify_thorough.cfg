CONSTANTS Scheme = "2DDWAVE" MaxX = 2 MaxY = 1 MaxZ = 0 Depth = 4
INIT Init
NEXT Next
INVARIANTS CleanFlow CleanTiming Sound Conjunctions
CHECK_DEADLOCK FALSE
