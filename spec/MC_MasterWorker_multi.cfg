SPECIFICATION Spec
CONSTANTS
 N = 4
 Workers = {1, 2, 3}
 Packet = 2
 Static = FALSE
 Lasting = TRUE
 Rounds = 2
 Cap = 4
INVARIANTS InPlace Known NothingLeft
PROPERTIES PBegun Terminates
