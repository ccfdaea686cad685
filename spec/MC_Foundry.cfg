SPECIFICATION Spec
CONSTANTS Places = {0, 1} Recipes = {"a", "b"} Depth = 5
CHECK_DEADLOCK FALSE
INVARIANTS Total Latest Apart
PROPERTY Stable
