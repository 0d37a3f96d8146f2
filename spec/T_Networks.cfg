CONSTANTS InitSt <- NwInit  StepSt <- NwStep  GoodEv <- NwGood
INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
