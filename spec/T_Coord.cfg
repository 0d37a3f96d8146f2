CONSTANTS InitSt <- CInit  StepSt <- CStep  GoodEv <- CGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
