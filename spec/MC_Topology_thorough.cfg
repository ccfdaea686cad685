SPECIFICATION Spec
CONSTANT MaxN = 12
INVARIANTS Sane Cleanly Degrees Shape
CHECK_DEADLOCK FALSE
