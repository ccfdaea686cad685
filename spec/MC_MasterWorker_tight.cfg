SPECIFICATION Spec
CONSTANTS
 N = 5
 Workers = {1, 2, 3}
 Packet = 2
 Static = TRUE
 Lasting = TRUE
 Rounds = 2
 Cap = 1
INVARIANTS InPlace Known NothingLeft
PROPERTIES PBegun Terminates
