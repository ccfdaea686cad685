CONSTANTS N = 4 V = 2 Rounds = 1
SPECIFICATION Spec
INVARIANTS Members EachOnce BestFirst SusExact TourBest Count2
CHECK_DEADLOCK FALSE
