CONSTANTS MaxNodes = 2  MaxOps = 4  MaxHandles = 2  GX = 1  GY = 1  Emitting = FALSE
INIT Init
NEXT Next
INVARIANTS Bijection Counting Outputs Dual Sub
CHECK_DEADLOCK FALSE
