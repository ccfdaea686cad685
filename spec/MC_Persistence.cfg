SPECIFICATION Spec
CONSTANTS V = 1 Q = 1 R = 2
INVARIANTS StreamIsHistory NamesDiffer Idempotent
PROPERTY Restores
CHECK_DEADLOCK FALSE
