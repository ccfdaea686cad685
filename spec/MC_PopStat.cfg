CONSTANTS N = 4 V = 2
SPECIFICATION Spec
INVARIANTS Members Fix BestWorst SortedIsNth Moments Mirror DualTotal
CHECK_DEADLOCK FALSE
