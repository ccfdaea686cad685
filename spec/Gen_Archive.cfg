SPECIFICATION GSpec
CONSTANTS MaxV = 3 NObj = 2 MaxIns = 100 Cap = 2 Depth = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
