CONSTANTS Scheme = "2DDWAVE" MaxX = 1 MaxY = 1 MaxZ = 0 Depth = 5
INIT Init
NEXT Next
INVARIANTS CleanFlow CleanTiming Sound Conjunctions
CHECK_DEADLOCK FALSE
