SPECIFICATION Spec
CONSTANTS K = 7 Depth = 3
INVARIANT SamePast
CHECK_DEADLOCK FALSE
