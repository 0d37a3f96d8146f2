CONSTANTS MaxNodes = 6  MaxOps = 12  MaxHandles = 2  GX = 2  GY = 1  Emitting = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
