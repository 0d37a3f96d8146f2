CONSTANTS MaxNodes = 5 MaxPos = 1 MaxOps = 2 Gates = {"and"}
INIT Init
NEXT Next
INVARIANTS Topological References Kept Own Levels Ways Virtual Ranks Comparisons
CHECK_DEADLOCK FALSE
