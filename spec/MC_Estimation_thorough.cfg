SPECIFICATION Spec
CONSTANTS V = {0, 1, 3} N = 4
INVARIANTS Between Positive Symmetric Centred Flat Repairs
