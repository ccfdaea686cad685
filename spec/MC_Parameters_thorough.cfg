SPECIFICATION Spec
CONSTANTS V = 2 L = 5
INVARIANTS AsPrescribed DefaultsKept HelpRight LastWins
CHECK_DEADLOCK FALSE
