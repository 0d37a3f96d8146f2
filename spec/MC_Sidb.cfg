CONSTANTS Eps = 1
 T = 0
 N = 3
 MaxV = 2
 MaxE = 1
 WithDefect = FALSE
INIT Init
NEXT Next
INVARIANT GroundIsValid
INVARIANT HopIsEnergy
INVARIANT StepIsEnergy
INVARIANT NegativeStay
INVARIANT PositiveOnly
INVARIANT TwoStates
INVARIANT AsDefect
INVARIANT IndexBijective
CHECK_DEADLOCK FALSE
