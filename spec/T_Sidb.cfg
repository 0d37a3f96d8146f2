CONSTANTS InitSt <- TheInit  StepSt <- TheStep  GoodEv <- TheGood
 Eps = 100
 T = 30
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
