SPECIFICATION Spec
CONSTANTS A = 2 B = 1 V = 2 T = 6
INVARIANTS GenExact PeriodExact FitExact EvalExact TimeExact SteadyExact SteadyMin
CHECK_DEADLOCK FALSE
