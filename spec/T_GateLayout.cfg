CONSTANTS InitSt <- GLInit  StepSt <- GLStep  GoodEv <- GLGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
