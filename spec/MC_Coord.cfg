CONSTANTS N = 2  L = 1
INIT Init
NEXT Next
INVARIANTS InBox Ordered Complete EndMark
CHECK_DEADLOCK FALSE
