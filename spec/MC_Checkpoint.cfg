SPECIFICATION Spec
CONSTANTS R = 2 Gens = 2 Every = 2
INVARIANTS Conform Fresh FinalOnce Periodic
CHECK_DEADLOCK FALSE
