CONSTANTS InitSt <- PtInit  StepSt <- PtStep  GoodEv <- PtGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
