SPECIFICATION Spec
CONSTANTS W = 4
 Step = 9
INVARIANTS Inside Projection Rounding
PROPERTY SumKept
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
