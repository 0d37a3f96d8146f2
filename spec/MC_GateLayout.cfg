CONSTANTS MaxNodes = 2  MaxOps = 3  MaxHandles = 2  GX = 1  GY = 0  Emitting = FALSE
INIT Init
NEXT Next
INVARIANTS Bijection Counting Outputs Dual Sub
CHECK_DEADLOCK FALSE
