CONSTANTS Arr = "odd_row" MX = 2 MY = 2
INIT Init
NEXT Next
INVARIANTS Optimal AtStart
CHECK_DEADLOCK FALSE
