SPECIFICATION Spec
CONSTANTS N = 2 V = 2 Steps = 5
INVARIANTS BestKept BestSeen Bounded
PROPERTIES NoTabu NoReturn
CHECK_DEADLOCK FALSE
