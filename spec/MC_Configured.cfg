SPECIFICATION Spec
CONSTANTS V = 2 N = 2 G = 3
INVARIANTS SizeKept Bounded Exact NotBefore
PROPERTIES Monotone Ends
CHECK_DEADLOCK FALSE
