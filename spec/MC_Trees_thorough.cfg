SPECIFICATION Spec
CONSTANTS Nodes = {0, 4, 1, 2} S = 3 Lim = 5
INVARIANTS Fine Counts Prunes
PROPERTY Ways
