SPECIFICATION Spec
CONSTANTS R = 2 NObj = 3 MaxN = 2
CHECK_DEADLOCK FALSE
INVARIANTS VolIsCells VolOfFront EpsLaw BinLaw
PROPERTY Grow
