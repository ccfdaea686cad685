CONSTANTS N = 5 V = 3
SPECIFICATION Spec
INVARIANTS Members Fix BestWorst SortedIsNth Moments Mirror DualTotal
CHECK_DEADLOCK FALSE
