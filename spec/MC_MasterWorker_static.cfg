SPECIFICATION Spec
CONSTANTS
 N = 4
 Workers = {1, 2, 3}
 Packet = 1
 Static = TRUE
 Lasting = FALSE
 Rounds = 1
 Cap = 3
INVARIANTS InPlace Known NothingLeft
PROPERTIES PBegun Terminates
