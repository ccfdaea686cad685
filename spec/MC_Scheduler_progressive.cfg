SPECIFICATION Spec
CONSTANTS W = 2 P = 4 Rounds = 2 Policy = "progressive"
INVARIANTS OnceAtMost AllWhenOver
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
