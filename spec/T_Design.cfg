CONSTANTS InitSt <- DInit  StepSt <- DStep  GoodEv <- DGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
