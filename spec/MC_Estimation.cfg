SPECIFICATION Spec
CONSTANTS V = {0, 1, 3} N = 3
INVARIANTS Between Positive Symmetric Centred Flat Repairs
