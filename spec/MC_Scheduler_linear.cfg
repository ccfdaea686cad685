SPECIFICATION Spec
CONSTANTS W = 3 P = 7 Rounds = 2 Policy = "linear"
INVARIANTS OnceAtMost AllWhenOver
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
