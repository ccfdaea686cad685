SPECIFICATION Spec
CONSTANTS N = 2 V = 3 Steps = 7
INVARIANTS BestKept BestSeen Bounded
PROPERTIES NoTabu NoReturn
CHECK_DEADLOCK FALSE
