SPECIFICATION Spec
CONSTANTS
 N = 6
 Workers = {1, 2, 3}
 Packet = 1
 Static = TRUE
 Lasting = TRUE
 Rounds = 2
 Cap = 1
INVARIANTS InPlace Known NothingLeft
PROPERTIES PBegun Terminates
