SPECIFICATION Spec
CONSTANTS MaxV = 2 NObj = 2 MaxN = 3
CHECK_DEADLOCK FALSE
INVARIANTS DepthLaws CountLaws IndLaw TieLaw
