SPECIFICATION Spec
CONSTANTS V = 2 N = 3
INVARIANTS StrictWeak FeasibleFirst Mirrored Exist SortConsistent Halves
CHECK_DEADLOCK FALSE
