SPECIFICATION Spec
CONSTANTS X = 3 N = 3 K = 2 MaxGen = 2 M = 4
CHECK_DEADLOCK FALSE
INVARIANTS TruePop HonestOff SizeKept OneGeneration
PROPERTY Ends
