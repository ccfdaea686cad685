SPECIFICATION Spec
CONSTANTS V = 3 N = 2 G = 4
INVARIANTS SizeKept Bounded Exact NotBefore
PROPERTIES Monotone Ends
CHECK_DEADLOCK FALSE
