CONSTANTS InitSt <- AInit  StepSt <- AStep  GoodEv <- AGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
