SPECIFICATION Spec
INVARIANTS TrueFitness Closed Undo
CHECK_DEADLOCK FALSE
