SPECIFICATION Spec
CONSTANTS N = 3 G0 = "star" K = 1
INVARIANTS OnlyNeighbours NothingLeft
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
