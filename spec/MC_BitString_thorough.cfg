SPECIFICATION Spec
CONSTANTS N = 6
 M = 5
INVARIANTS Lengths Alleles Counts Inversion Counting OneIsN Clone
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
