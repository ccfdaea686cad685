SPECIFICATION Spec
CONSTANTS Places = {0, 1, 2} Recipes = {"a", "b"} Depth = 7
CHECK_DEADLOCK FALSE
INVARIANTS Total Latest Apart
PROPERTY Stable
