SPECIFICATION Spec
CONSTANTS N = 2 G0 = "complete" K = 2
INVARIANTS OnlyNeighbours NothingLeft
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
