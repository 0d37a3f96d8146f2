CONSTANTS InitSt <- VInit  StepSt <- VStep  GoodEv <- VGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
