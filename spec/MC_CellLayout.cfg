CONSTANTS MaxOps = 5  MaxHandles = 3
INIT Init
NEXT Next
INVARIANTS Io Isolated Fresh Tight Defective
CHECK_DEADLOCK FALSE
