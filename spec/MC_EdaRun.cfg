SPECIFICATION Spec
CONSTANTS N = 2 Gens = 2
INVARIANTS Current Fresh NotFirst Full OnlyKnown
PROPERTY Ends
CHECK_DEADLOCK FALSE
