SPECIFICATION Spec
CONSTANTS W = 4 P = 9 Rounds = 2 Policy = "linear"
INVARIANTS OnceAtMost AllWhenOver
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
