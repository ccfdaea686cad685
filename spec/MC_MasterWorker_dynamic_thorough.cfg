SPECIFICATION Spec
CONSTANTS
 N = 7
 Workers = {1, 2, 3, 4}
 Packet = 2
 Static = FALSE
 Lasting = FALSE
 Rounds = 1
 Cap = 3
INVARIANTS InPlace Known NothingLeft
PROPERTIES PBegun Terminates
