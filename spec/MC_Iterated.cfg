SPECIFICATION Spec
CONSTANTS N = 1 V = 2 Steps = 6 MaxH = 3
INVARIANTS AllTried NoRepeat BestKept
PROPERTIES NeverWorse
CHECK_DEADLOCK FALSE
