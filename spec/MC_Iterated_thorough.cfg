SPECIFICATION Spec
CONSTANTS N = 1 V = 2 Steps = 8 MaxH = 4
INVARIANTS AllTried NoRepeat BestKept
PROPERTIES NeverWorse
CHECK_DEADLOCK FALSE
