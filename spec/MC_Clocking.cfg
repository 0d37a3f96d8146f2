CONSTANTS N = 13
INIT Init
NEXT Next
INVARIANTS InRange Dual OneWay NoFeedback Degrees Live
CHECK_DEADLOCK FALSE
