CONSTANTS MaxNodes = 5 MaxPos = 2 MaxOps = 2 Gates = {"buf", "xor", "not"}
INIT Init
NEXT Next
INVARIANTS Topological References Kept Own Levels Ways Virtual Ranks Comparisons
CHECK_DEADLOCK FALSE
