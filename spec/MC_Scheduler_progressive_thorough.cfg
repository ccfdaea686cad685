SPECIFICATION Spec
CONSTANTS W = 3 P = 6 Rounds = 2 Policy = "progressive"
INVARIANTS OnceAtMost AllWhenOver
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
