SPECIFICATION Spec
CONSTANTS W = 2
 Step = 7
INVARIANTS Inside Projection Rounding
PROPERTY SumKept
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
