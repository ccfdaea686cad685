SPECIFICATION Spec
CONSTANTS N = 3 M = 4 V = 2 Gens = 2
INVARIANTS SizeKept Elitist TourKeepsBest
PROPERTIES StepwiseIsBest
CHECK_DEADLOCK FALSE
