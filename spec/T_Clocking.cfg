CONSTANTS InitSt <- KInit  StepSt <- KStep  GoodEv <- KGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
