SPECIFICATION Spec
CONSTANTS V = 1 N = 5
INVARIANTS StrictWeak FeasibleFirst Mirrored Exist SortConsistent Halves
CHECK_DEADLOCK FALSE
