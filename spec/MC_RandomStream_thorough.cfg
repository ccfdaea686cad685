SPECIFICATION Spec
CONSTANTS K = 7 Depth = 5
INVARIANT SamePast
CHECK_DEADLOCK FALSE
