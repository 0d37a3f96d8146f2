CONSTANTS InitSt <- LInit  StepSt <- LStep  GoodEv <- LGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
