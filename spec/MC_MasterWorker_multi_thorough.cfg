SPECIFICATION Spec
CONSTANTS
 N = 5
 Workers = {1, 2, 3}
 Packet = 1
 Static = FALSE
 Lasting = TRUE
 Rounds = 3
 Cap = 4
INVARIANTS InPlace Known NothingLeft
PROPERTIES PBegun Terminates
