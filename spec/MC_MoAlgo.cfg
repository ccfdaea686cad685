SPECIFICATION Spec
CONSTANTS X = 3 N = 2 Algs = {"NSGAII", "NSGA", "MOGA", "IBEA"} MaxGen = 1
CHECK_DEADLOCK FALSE
INVARIANTS SizeKept TrueVectors FrontKept Total
