CONSTANTS N = 3 V = 3 Rounds = 2
SPECIFICATION Spec
INVARIANTS Members EachOnce BestFirst SusExact TourBest Count2
CHECK_DEADLOCK FALSE
