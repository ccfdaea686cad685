SPECIFICATION Spec
CONSTANTS MaxV = 2 NObj = 2 MaxIns = 3 Cap = 2
INVARIANTS SubmittedOnly NonDominated NoDuplicates ExactFront Capacity
PROPERTY Monotone
CHECK_DEADLOCK FALSE
