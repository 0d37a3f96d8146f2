CONSTANTS M = 12  B = 6
INIT Init
NEXT Next
INVARIANTS NoRepeat AllOf Sound GrayBij GrayRange
CHECK_DEADLOCK FALSE
