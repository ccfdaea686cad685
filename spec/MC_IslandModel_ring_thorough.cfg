SPECIFICATION Spec
CONSTANTS N = 3 G0 = "ring" K = 2
INVARIANTS OnlyNeighbours NothingLeft
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
