SPECIFICATION Spec
CONSTANTS K = 3 R = 1 One = 6 Depth = 2
INVARIANTS Hull OnlyRanks Unambiguous Positive
CHECK_DEADLOCK FALSE
