SPECIFICATION Spec
CONSTANTS N = 4
 M = 4
INVARIANTS Lengths Alleles Counts Inversion Counting OneIsN Clone
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
