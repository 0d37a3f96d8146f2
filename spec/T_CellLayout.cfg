CONSTANTS InitSt <- CLInit  StepSt <- CLStep  GoodEv <- CLGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
