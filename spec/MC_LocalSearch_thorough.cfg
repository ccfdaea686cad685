SPECIFICATION Spec
CONSTANTS N = 2 V = 3 Limit = 7
INVARIANTS Optimum Climbing Spans
PROPERTIES Monotone NoLoss Plateau Cools
CHECK_DEADLOCK FALSE
