SPECIFICATION Spec
CONSTANTS
 N = 5
 Workers = {1, 2, 3, 4}
 Packet = 1
 Static = TRUE
 Lasting = FALSE
 Rounds = 1
 Cap = 3
INVARIANTS InPlace Known NothingLeft
PROPERTIES PBegun Terminates
