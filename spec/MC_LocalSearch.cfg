SPECIFICATION Spec
CONSTANTS N = 2 V = 2 Limit = 5
INVARIANTS Optimum Climbing Spans
PROPERTIES Monotone NoLoss Plateau Cools
CHECK_DEADLOCK FALSE
