SPECIFICATION Spec
CONSTANTS Alphabet = {34, 92, 44, 125} L = 3 W = 1
INVARIANT RoundTrip CommasRight
CHECK_DEADLOCK FALSE
