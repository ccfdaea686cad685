SPECIFICATION Spec
CONSTANT MaxN = 9
INVARIANTS Sane Cleanly Degrees Shape
CHECK_DEADLOCK FALSE
