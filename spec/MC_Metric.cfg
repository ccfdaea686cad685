SPECIFICATION Spec
CONSTANTS R = 2 NObj = 2 MaxN = 3
CHECK_DEADLOCK FALSE
INVARIANTS VolIsCells VolOfFront EpsLaw BinLaw
PROPERTY Grow
