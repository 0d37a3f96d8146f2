CONSTANTS InitSt <- PFInit  StepSt <- PFStep  GoodEv <- PFGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
