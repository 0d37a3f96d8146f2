CONSTANTS States = {0, 1, 2, 3}  MaxTemp = 3  Cycles = 2
SPECIFICATION Spec
INVARIANTS BestIsBest BestConsistent CandsVisited TempRange
PROPERTIES Terminates NeverWorse
CHECK_DEADLOCK FALSE
