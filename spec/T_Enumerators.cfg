CONSTANTS InitSt <- EInit  StepSt <- EStep  GoodEv <- EGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
