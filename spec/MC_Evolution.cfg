SPECIFICATION Spec
CONSTANTS X = 2 N = 2 K = 2 MaxGen = 2 M = 3
CHECK_DEADLOCK FALSE
INVARIANTS TruePop HonestOff SizeKept OneGeneration
PROPERTY Ends
