CONSTANTS D = 5  NB = 7
INIT Init
NEXT Next
INVARIANTS Monotone Bounded
CHECK_DEADLOCK FALSE
