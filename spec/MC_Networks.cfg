CONSTANTS MaxNodes = 5 MaxPos = 2 MaxOps = 1 Gates = {"buf", "and"}
INIT Init
NEXT Next
INVARIANTS Topological References Kept Own Levels Ways Virtual Ranks Comparisons
CHECK_DEADLOCK FALSE
