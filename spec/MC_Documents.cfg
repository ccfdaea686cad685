SPECIFICATION Spec
CONSTANTS Alphabet = {34, 92, 44, 125} L = 2 W = 2
INVARIANT RoundTrip CommasRight
CHECK_DEADLOCK FALSE
