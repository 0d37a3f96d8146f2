CONSTANTS InitSt <- HInit  StepSt <- HStep  GoodEv <- HGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
