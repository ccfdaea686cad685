SPECIFICATION Spec
CONSTANTS K = 3 Kinds = {"exhaustive", "simple", "first", "nodes"} Nums = {0, 1} Pbs = {1, 2} Reps = {TRUE, FALSE}
CHECK_DEADLOCK FALSE
INVARIANTS ClosedAlways NonDominated NeverLost SeenOnly
