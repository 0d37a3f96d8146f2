CONSTANTS MaxX = 3 MaxY = 3 MaxZ = 1
INIT Init
NEXT Next
INVARIANTS StaysInside DirectionsAgree Symmetric Irreflexive Degree OppositeSteps OppositesAgree EnumComplete
CHECK_DEADLOCK FALSE
